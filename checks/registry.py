CHECKS = {
    'K01': ('fisher', 'K01'), 'S01': ('stokes', 'S01'), 'S02': ('stokes', 'S02'), 'S03': ('stokes', 'S03'), 'U03': ('mutil', 'U03'), 'P01': ('dpg', 'P01'), 'P02': ('dpg', 'P02'), 'P03': ('dpg', 'P03'), 'P04': ('dpg', 'P04'),
    'H01': ('headers', 'H01'), 'H02': ('headers', 'H02'),
    'M02': ('builders', 'M02'),
    'R07': ('mutil', 'R07'), 'U01': ('mutil', 'U01'), 'U02': ('mutil', 'U02'),
    'R04': ('hier', 'R04'), 'R05': ('hier', 'R05'), 'R06': ('hier', 'R06'),
    'M01': ('meshes', 'M01'),
    'E04': ('spaces', 'E04'),
    'E01': ('femod', 'E01'), 'E02': ('femod', 'E02'), 'E03': ('femod', 'E03'),
    'A01': ('assem', 'A01'), 'A02': ('assem', 'A02'), 'A03': ('assem', 'A03'),
    'D01': ('dofs', 'D01'),
    'E05': ('prolong', 'E05'), 'N01': ('iofiles', 'N01'), 'N03': ('iofiles', 'N03'), 'Q01': ('quadr', 'Q01'), 'Q02': ('quadr', 'Q02'),
    'R01': ('refel', 'R01'),
    'G01': ('geom', 'G01'), 'G02': ('geom', 'G02'), 'G03': ('geom', 'G03'), 'G05': ('geom', 'G05'),
    'R02': ('refine', 'R02'), 'R03': ('refine', 'R03'), 'G04': ('refine', 'G04'),
    'F01': ('fe', 'F01'), 'F02': ('fe', 'F02'), 'F03': ('fe', 'F03'), 'F06': ('fe', 'F06'),
}
