"""witness programs for H02: documented uses of the interface that have to compile (W) and uses that must not (BAD)"""
W={}
for n,S in (('d','double'),('c','C')):
    W['fe_'+n]='''
template class fe::FePoint<S>; template class fe::FeHierarchicSegment<S>; template class fe::FeHierarchicTria<S>; template class fe::FeHierarchicQuad<S>;
template class uscalfe::FeLagrangeO1Tria<S>; template class uscalfe::FeLagrangeO1Quad<S>; template class uscalfe::FeLagrangeO1Segment<S>;
template class uscalfe::FeLagrangeO2Tria<S>; template class uscalfe::FeLagrangeO2Quad<S>; template class uscalfe::FeLagrangeO2Segment<S>;
template class uscalfe::FeLagrangeO3Tria<S>; template class uscalfe::FeLagrangeO3Quad<S>; template class uscalfe::FeLagrangeO3Segment<S>;
template class uscalfe::PrecomputedScalarReferenceFiniteElement<S>;
template class fe::HierarchicScalarFESpace<S>; template class uscalfe::UniformScalarFESpace<S>;
template class uscalfe::FeSpaceLagrangeO1<S>; template class uscalfe::FeSpaceLagrangeO2<S>; template class uscalfe::FeSpaceLagrangeO3<S>;
'''.replace('<S>','<%s>'%S)
    W['coo_'+n]='''
using S=%s; using V=Eigen::Matrix<S,-1,1>; using M=Eigen::Matrix<S,-1,-1>;
template class assemble::COOMatrix<S>;
void f(const assemble::DofHandler& dh, const fe::ScalarFESpace<S>& sp){
 assemble::COOMatrix<S> A(3,3); A.AddToEntry(0,1,S(2)); A.setZero(); A.setZero([](unsigned i, unsigned j){return i==j;});
 Eigen::SparseMatrix<S> s=A.makeSparse(); M d=A.makeDense(); V v=A.MatVecMult(S(1),V(3)); V r(3); A.MatVecMult(S(1),V(3),r); std::stringstream o; o<<A; (void)fmt::format("{}",A); A.PrintInfo(o);
 const auto& ca=A; ca.triplets(); A.triplets(); ca.rows(); ca.cols(); ca.makeDense();ca.makeSparse();ca.MatVecMult(S(1),V(3));
 auto sel=[](unsigned i){return std::make_pair(true,S(1));};
 assemble::FixFlaggedSolutionComponents<S>(sel,A,r); assemble::FixFlaggedSolutionCompAlt<S>(sel,A,r);
 assemble::FixFlaggedSolutionComponents<S>([](unsigned i){return std::pair<bool,S>(true,S(1));},A,r);
 assemble::fixed_components_t<S> fc; assemble::FixSolutionComponentsLse<S>(fc,A,r);
 struct P{bool isActive(const mesh::Entity&){return true;} M Eval(const mesh::Entity&){return M(3,3);}} p;
 struct Q{bool isActive(const mesh::Entity&){return true;} V Eval(const mesh::Entity&){return V(3);}} q;
 struct P3{bool isActive(const mesh::Entity&)const{return true;} Eigen::Matrix<S,3,3> Eval(const mesh::Entity&)const{return {};}}; const P3 p3; P3 p3n;
 struct Q3{bool isActive(const mesh::Entity&)const{return true;} Eigen::Matrix<S,3,1> Eval(const mesh::Entity&)const{return {};}}; const Q3 q3; Q3 q3n;
 auto B=assemble::AssembleMatrixLocally<assemble::COOMatrix<S>>(0,dh,p); auto B2=assemble::AssembleMatrixLocally<assemble::COOMatrix<S>>(0,dh,dh,p); assemble::AssembleMatrixLocally(0,dh,dh,p,A);
 assemble::AssembleMatrixLocally(1,dh,dh,p3n,A);
 V w=assemble::AssembleVectorLocally<V>(0,dh,q); assemble::AssembleVectorLocally(0,dh,q,w);assemble::AssembleVectorLocally(0,dh,q3n,w);
 o<<sp;
}'''%S
for n,S,K in (('dd','double','double'),('cd','C','double'),('dc','double','C'),('cc','C','C')):
    res='double' if n=='dd' else 'C'
    W['prov_'+n]='''
using S=%s; using K=%s;
template<class MF> void f(std::shared_ptr<uscalfe::UniformScalarFESpace<S>> u, std::shared_ptr<const fe::ScalarFESpace<S>> h, std::shared_ptr<uscalfe::FeSpaceLagrangeO1<S>> o1, MF k, const mesh::Entity& e){
 uscalfe::ReactionDiffusionElementMatrixProvider rd(u,k,k); rd.isActive(e); rd.Eval(e);
 uscalfe::ReactionDiffusionElementMatrixProvider rdq(o1,k,k,uscalfe::quad_rule_collection_t{}); rdq.Eval(e);
 uscalfe::MassEdgeMatrixProvider me(u,k); me.isActive(e); me.Eval(e); uscalfe::MassEdgeMatrixProvider me2(u,k,[](const mesh::Entity&){return true;}); me2.Eval(e);
 mesh::utils::CodimMeshDataSet<bool>* fl=nullptr; uscalfe::MassEdgeMatrixProvider me3(u,k,*fl); me3.Eval(e);
 uscalfe::MassEdgeMatrixProvider<S,MF,base::PredicateTrue> me4(u,k,quad::QuadRule{}); me4.Eval(e); auto pr=[](const mesh::Entity&){return true;}; uscalfe::MassEdgeMatrixProvider<S,MF,decltype(pr)> me5(u,k,quad::QuadRule{},pr); me5.Eval(e); uscalfe::ScalarLoadEdgeVectorProvider<S,MF,base::PredicateTrue> le4(u,k,quad::QuadRule{}); le4.Eval(e); 
 uscalfe::ScalarLoadElementVectorProvider lo(u,k); lo.isActive(e); lo.Eval(e); uscalfe::ScalarLoadElementVectorProvider<S,MF> lo2(u,k,uscalfe::quad_rule_collection_t{}); lo2.Eval(e);
 uscalfe::ScalarLoadEdgeVectorProvider le(u,k); le.isActive(e); le.Eval(e); uscalfe::ScalarLoadEdgeVectorProvider le2(u,k,[](const mesh::Entity&){return true;}); le2.Eval(e); uscalfe::ScalarLoadEdgeVectorProvider le3(u,k,*fl); le3.Eval(e);
 fe::DiffusionElementMatrixProvider dp(h,k); dp.isActive(e); dp.Eval(e); fe::MassElementMatrixProvider mp(h,k); mp.isActive(e); mp.Eval(e);
 fe::DiffusionElementMatrixProvider dp1(o1,k); fe::MassElementMatrixProvider mp1(o1,k);
 fe::MassEdgeMatrixProvider fe1(h,k); fe1.isActive(e); fe1.Eval(e); fe::MassEdgeMatrixProvider fe2(h,k,*fl); fe2.Eval(e);fe::MassEdgeMatrixProvider fe3(o1,k,[](const mesh::Entity&){return true;}); fe3.Eval(e);
 fe::ScalarLoadElementVectorProvider fl1(h,k); fl1.isActive(e); fl1.Eval(e); fe::ScalarLoadEdgeVectorProvider fl2(h,k); fl2.isActive(e); fl2.Eval(e); fe::ScalarLoadEdgeVectorProvider fl3(h,k,*fl); fl3.Eval(e);
 static_assert(assemble::EntityMatrixProvider<decltype(rd)>&&assemble::EntityMatrixProvider<decltype(me)>&&assemble::EntityMatrixProvider<decltype(dp)>&&assemble::EntityMatrixProvider<decltype(mp)>&&assemble::EntityMatrixProvider<decltype(fe1)>);
 static_assert(assemble::EntityVectorProvider<decltype(lo)>&&assemble::EntityVectorProvider<decltype(le)>&&assemble::EntityVectorProvider<decltype(fl1)>&&assemble::EntityVectorProvider<decltype(fl2)>);
 const auto& dh=h->LocGlobMap(); auto A=assemble::AssembleMatrixLocally<assemble::COOMatrix<%s>>(0,dh,rd); A=assemble::AssembleMatrixLocally<assemble::COOMatrix<%s>>(1,dh,fe1); auto b=assemble::AssembleVectorLocally<Eigen::Matrix<%s,-1,1>>(0,dh,lo);
 fe::IntegrateMeshFunction(*h->Mesh(),k,3); fe::IntegrateMeshFunction(*h->Mesh(),k,[](const mesh::Entity& e){return quad::make_QuadRule(e.RefEl(),3);}); fe::IntegrateMeshFunction(*h->Mesh(),k,3,[](const mesh::Entity&){return true;},1);
 fe::NodalProjection(*h,k); fe::NodalProjection(*h,k,[](const mesh::Entity&){return true;}); if constexpr(std::is_same_v<S,C>||std::is_same_v<K,double>){fe::InitEssentialConditionFromFunction(*h,[](const mesh::Entity&){return true;},k); fe::InitEssentialConditionFromFunction(*h,*fl,k);}
}
void g(std::shared_ptr<uscalfe::UniformScalarFESpace<S>> u, std::shared_ptr<const fe::ScalarFESpace<S>> h, std::shared_ptr<uscalfe::FeSpaceLagrangeO1<S>> o1,const mesh::Entity& e){
 f(u,h,o1,MeshFunctionConstant<K>(K(1)),e); f(u,h,o1,MeshFunctionGlobal([](const Eigen::Vector2d& x){return K(x[0]);}),e); f(u,h,o1,MeshFunctionGlobal([](Eigen::Vector3d x)->K{return K(x[0]);}),e);
 f(u,h,o1,MeshFunctionGlobal([](auto x)->K{return K(x[0]);}),e);
 f(u,h,o1,MeshFunctionGlobal(std::function<K(const Eigen::Vector2d&)>()),e);
 f(u,h,o1,MeshFunctionConstant<K>(K(1))*MeshFunctionConstant<K>(K(1))-MeshFunctionGlobal([](auto x)->K{return K(x[0]);}),e);
}'''%(S,K,res,res,res)
    W['diffm_'+n]='''
using S=%s; using K=%s;
void g(std::shared_ptr<uscalfe::UniformScalarFESpace<S>> u, std::shared_ptr<const fe::ScalarFESpace<S>> h,const mesh::Entity& e){
 auto go=[&](auto k, auto r){ uscalfe::ReactionDiffusionElementMatrixProvider rd(u,k,r); rd.Eval(e); fe::DiffusionElementMatrixProvider dp(h,k); dp.Eval(e);};
 MeshFunctionConstant<K> r(K(1));
 go(MeshFunctionConstant<Eigen::Matrix<K,2,2>>({}),r); go(MeshFunctionConstant<Eigen::Matrix<K,3,3>>({}),r); go(MeshFunctionConstant<Eigen::Matrix<K,-1,-1>>({}),r);go(MeshFunctionGlobal([](const Eigen::Vector2d& x){return Eigen::Matrix<K,2,2>();}),r);
}'''%(S,K)
    W['mf_'+n]='''
using S=%s; using K=%s;
void g(std::shared_ptr<const uscalfe::UniformScalarFESpace<S>> u, std::shared_ptr<const fe::ScalarFESpace<S>> h,std::shared_ptr<uscalfe::FeSpaceLagrangeO1<S>> o1,const mesh::Entity& e, Eigen::Matrix<K,-1,1> v, Eigen::MatrixXd p, const refinement::MeshHierarchy& mh){
 fe::MeshFunctionFE a(u,v); fe::MeshFunctionFE b(h,v); fe::MeshFunctionFE c(o1,v); fe::MeshFunctionGradFE d(u,v); fe::MeshFunctionGradFE ee(h,v); fe::MeshFunctionGradFE ff(o1,v);
 static_assert(mesh::utils::MeshFunction<decltype(a)>&&mesh::utils::MeshFunction<decltype(d)>);
 a(e,p); d(e,p); a.getMesh(); d.getMesh(); a.getFESpace(); d.getFESpace();
 auto m=a*a+a-a; m(e,p); auto n=squaredNorm(d); n(e,p); auto t=transpose(d)*d; t(e,p); auto q=adjoint(d); q(e,p); conjugate(a)(e,p); (-a)(e,p); (-d)(e,p); squaredNorm(a)(e,p); 
 (a*d)(e,p); (d*a)(e,p); (d+d)(e,p); (d-d)(e,p); (MeshFunctionConstant<double>(1)*d)(e,p); (d*MeshFunctionConstant<double>(2))(e,p); (MeshFunctionConstant<C>(1)*a)(e,p); (a-MeshFunctionGlobal([](auto x)->double{return 1.;}))(e,p);(MeshFunctionGlobal([](auto x)->Eigen::Vector2d{return {};})-d)(e,p); (MeshFunctionConstant<Eigen::Matrix2d>({})*d)(e,p);
 refinement::MeshFunctionTransfer tr(mh,a,0,1); tr(e,p); tr.getMesh(); refinement::MeshFunctionTransfer tr2(mh,n,0,2); tr2(e,p); refinement::MeshFunctionTransfer tr3(mh,MeshFunctionConstant<K>(1),0,1); tr3(e,p);
 static_assert(mesh::utils::MeshFunction<decltype(tr)>);
 fe::IntegrateMeshFunction(*a.getMesh(),squaredNorm(d),4); fe::IntegrateMeshFunction(*a.getMesh(),d,4); fe::IntegrateMeshFunction(*a.getMesh(),a,4);
 if constexpr(!std::is_same_v<S,C>||std::is_same_v<K,C>) fe::prolongate(mh,o1,o1,v,0);
}'''%(S,K)
W['print']='''
void f(const mesh::Mesh& m, const mesh::Entity& e, const geometry::Geometry& g, const quad::QuadRule& q, const assemble::DofHandler& d, const refinement::MeshHierarchy& h, const mesh::hybrid2d::MeshFactory& mf, const io::GMshFileV2& f2, const uscalfe::UniformScalarFESpace<double>& u, const fe::ScalarFESpace<double>& s, const fe::ScalarReferenceFiniteElement<double>& sf){
 std::stringstream o; o<<e<<g<<q<<d<<mf<<f2<<e.RefEl()<<refinement::rp_regular<<io::GMshFileV2::ElementType::TRIA3<<io::GMshFileV4::ElementType::TRIA3<<u<<s<<sf;
 mesh::utils::PrintInfo(o,m); mesh::utils::PrintInfo(o,m,100); mesh::utils::PrintInfo(o,e); mesh::utils::PrintInfo(o,e,5); geometry::PrintInfo(o,g); geometry::PrintInfo(o,g,3); q.PrintInfo(o); q.PrintInfo(o,1); assemble::PrintInfo(o,d,3); h.PrintInfo(o); h.PrintInfo(o,3);  uscalfe::PrintInfo(o,u); fe::PrintInfo(o,sf);
 auto x=fmt::format("{} {} {} {} {} {} {} {} {}",e,g,q,d,mf,e.RefEl(),refinement::rp_regular,io::GMshFileV2::ElementType::TRIA3,io::GMshFileV4::ElementType::TRIA3);
 x=fmt::format("{} {} {} {}",u,s,sf,f2); x=fmt::format("{} {} {}",Eigen::MatrixXd(2,2),Eigen::Vector2i(),Eigen::ArrayXXd(2,2)); x=fmt::format("{:.5}",Eigen::MatrixXd(2,2)); x=fmt::format("{}",Eigen::MatrixXcd(2,2));
}'''
W['print2']='''
void f(const mesh::Mesh& m, const uscalfe::FeSpaceLagrangeO1<double>& o1, const uscalfe::FeSpaceLagrangeO3<C>& o3, const fe::HierarchicScalarFESpace<double>& hs, const assemble::UniformFEDofHandler& ud, const assemble::DynamicFEDofHandler& dd, const geometry::TriaO1& g, const uscalfe::FeLagrangeO1Tria<double>& l){
 std::stringstream o; o<<o1<<o3<<hs<<ud<<dd<<g<<l<<m.EntityByIndex(0,0)->RefEl();
 uscalfe::PrintInfo(o,o1); uscalfe::PrintInfo(o,o3,3);
}'''
W['mds']='''
enum class E{a,b}; struct NC{NC()=default;std::vector<int> v;};
void f(std::shared_ptr<mesh::Mesh> m, std::shared_ptr<const mesh::Mesh> cm, const mesh::Entity& e){
 auto go=[&](auto t){using T=decltype(t); mesh::utils::CodimMeshDataSet<T> a(m,0),b(cm,1,T{}); a(e)=T{}; T x=std::as_const(a)(e); a.DefinedOn(e); auto c=a; c=std::move(b); 
  auto p=mesh::utils::make_CodimMeshDataSet<T>(m,0); auto p2=mesh::utils::make_CodimMeshDataSet<T>(cm,0,T{}); 
  mesh::utils::AllCodimMeshDataSet<T> d(m),dd(cm,T{}); d(e)=T{}; T y=std::as_const(d)(e); d.DefinedOn(e); auto p3=mesh::utils::make_AllCodimMeshDataSet<T>(m); auto p4=mesh::utils::make_AllCodimMeshDataSet<T>(cm,T{});
  const mesh::utils::MeshDataSet<T>& base=a; T z=base(e); base.DefinedOn(e);};
 go(int{}); go(bool{}); go(double{}); go(C{}); go(Eigen::Vector2d{}); go(Eigen::VectorXd{}); go(std::string{}); go(std::vector<int>{}); go(E{}); go(NC{}); go((const mesh::Entity*)nullptr); go(std::pair<int,bool>{}); go(std::shared_ptr<int>{});
 auto n=mesh::utils::CountNumSuperEntities(cm,1,1); auto bd=mesh::utils::flagEntitiesOnBoundary(cm,1); auto bd2=mesh::utils::flagEntitiesOnBoundary(cm); auto bd3=mesh::utils::flagEntitiesOnBoundary(m,2);
}'''
W['io']='''
void f(std::shared_ptr<mesh::Mesh> m, std::shared_ptr<const mesh::Mesh> cm, std::shared_ptr<uscalfe::FeSpaceLagrangeO1<double>> s, Eigen::VectorXd v, Eigen::VectorXcd vc){
 io::VtkWriter w(cm,"a"),w2(m,std::string("b"),0,2);
 auto go=[&](auto t){using T=decltype(t); w.WritePointData("x",mesh::utils::CodimMeshDataSet<T>(cm,2)); w.WritePointData("x",mesh::utils::AllCodimMeshDataSet<T>(cm)); w.WriteCellData("x",mesh::utils::CodimMeshDataSet<T>(cm,0)); 
   const mesh::utils::MeshDataSet<T>& b=*mesh::utils::make_CodimMeshDataSet<T>(cm,0); w.WriteCellData("y",b); w.WriteCellData("y",b,T{}); w.WritePointData("y",b,T{}); };
 go((char)1); go((unsigned char)1); go(1); go(1u); go(1.f); go(1.); go(Eigen::Vector2d()); go(Eigen::Vector3d()); go(Eigen::Vector2f()); go(Eigen::Vector3f()); go(Eigen::VectorXd()); go(Eigen::VectorXf());
 auto gm=[&](auto mf){ w.WritePointData("x",mf); w.WriteCellData("x",mf);};
 gm(MeshFunctionConstant<double>(1)); gm(MeshFunctionConstant<float>(1)); gm(MeshFunctionConstant<int>(1)); gm(MeshFunctionConstant<unsigned>(1)); gm(MeshFunctionConstant<char>(1)); gm(MeshFunctionConstant<unsigned char>(1));
 gm(MeshFunctionConstant<Eigen::Vector2d>({})); gm(MeshFunctionConstant<Eigen::Vector3d>({})); gm(MeshFunctionConstant<Eigen::VectorXd>({}));gm(MeshFunctionConstant<Eigen::Vector2f>({}));gm(MeshFunctionConstant<Eigen::VectorXf>({}));
 gm(fe::MeshFunctionFE(s,v)); gm(fe::MeshFunctionGradFE(s,v)); gm(MeshFunctionGlobal([](auto x)->double{return 1.;})); gm(MeshFunctionGlobal([](auto x)->Eigen::Vector2d{return {};}));
 w.WriteGlobalData("x",std::vector<int>{1}); w.WriteGlobalData("x",std::vector<float>{1}); w.WriteGlobalData("x",std::vector<double>{1}); w.setBinary(true);
 io::GmshReader r(std::make_unique<mesh::hybrid2d::MeshFactory>(2),"x.msh"); r.mesh(); std::as_const(r).mesh(); r.PhysicalEntityName2Nr("x"); r.PhysicalEntityName2Nr("x",1); r.PhysicalEntityNr2Name(1); r.PhysicalEntities(0); io::GmshReader r2(std::make_unique<mesh::hybrid2d::MeshFactory>(2),io::GMshFileV2{}); io::GmshReader r4(std::make_unique<mesh::hybrid2d::MeshFactory>(2),io::GMshFileV4{});
 io::GmshReader r5(std::make_unique<mesh::hybrid2d::MeshFactory>(2),io::ReadGmshFile("x"));
 io::writeTikZ(*m,"x",[](const mesh::Entity&){return true;},io::TikzOutputCtrl::RenderCells|io::TikzOutputCtrl::EdgeNumbering); io::writeTikZ(*m,"x",[](const mesh::Entity&){return true;}); io::writeTikZ(*m,"x",[](const mesh::Entity&){return true;},io::TikzOutputCtrl::RenderCells); io::writeMatlab(*m,"x"); io::writeMatplotlib(*m,"x");
}'''
W['refm']='''
struct Mk{bool operator()(const mesh::Mesh&, const mesh::Entity&)const{return true;}};
void f(std::shared_ptr<mesh::Mesh> m, const mesh::Entity& e){
 refinement::MeshHierarchy h(m,std::make_unique<mesh::hybrid2d::MeshFactory>(2)); h.RefineRegular(); h.RefineRegular(refinement::rp_barycentric); h.MarkEdges(Mk{}); Mk k; h.MarkEdges(k); const Mk ck; h.MarkEdges(ck); h.MarkEdges([](const mesh::Mesh&, const mesh::Entity&){return true;}); h.MarkEdges(std::function<bool(const mesh::Mesh&, const mesh::Entity&)>()); h.RefineMarked();
 auto p=refinement::GenerateMeshHierarchyByUniformRefinemnt(m,2); p->getMesh(0); std::as_const(*p).getMesh(0); p->getMeshes(); p->NumLevels(); p->PointChildInfos(0); p->EdgeChildInfos(0); p->CellChildInfos(0); p->ParentInfos(0,1); p->RefinementEdges(0); p->GeometryInParent(1,e); p->ParentEntity(1,e);
 refinement::EntityCenterPositionSelector s([](const Eigen::MatrixXd& x){return true;}); s(e); refinement::EntityCenterPositionSelector s2([](const Eigen::Vector2d& x){return x[0]<1;}); s2(e); std::function<bool(const Eigen::MatrixXd&)> fn; refinement::EntityCenterPositionSelector s3(fn); s3(e); 
 refinement::WriteMatlab(h,"x"); refinement::WriteMatlabLevel(h,0,"x");
}'''
W['mesh']='''
void f(std::shared_ptr<mesh::Mesh> m, const mesh::Entity& e, const mesh::Mesh& c){
 for(const mesh::Entity* p: c.Entities(0)){ for(const mesh::Entity* q: p->SubEntities(1)){(void)q;} for(mesh::Orientation o: p->RelativeOrientations()){(void)mesh::to_sign(o); (void)mesh::to_char(o);} }
 c.NumEntities(0); c.NumEntities(base::RefEl::kTria()); c.Index(e); c.EntityByIndex(0,1); c.Contains(e); c.DimMesh(); c.DimWorld(); e.Codim(); e.RefEl(); e.Geometry(); (void)(e==e); (void)(e!=e);
 mesh::hybrid2d::MeshFactory f(2),f3(3,true); f.DimWorld(); f.DimMesh(); f.AddPoint(Eigen::Vector2d(0,0)); f3.AddPoint(Eigen::Vector3d(0,0,0)); f.AddPoint(std::make_unique<geometry::Point>(Eigen::Vector2d(0,0))); std::array<mesh::MeshFactory::size_type,2> ed{{0,1}}; f.AddEntity(base::RefEl::kSegment(),ed,nullptr); f.AddEntity(base::RefEl::kTria(),std::array<unsigned,3>{{0,1,2}},std::make_unique<geometry::TriaO1>(Eigen::MatrixXd(2,3))); f.AddEntity(base::RefEl::kTria(),std::vector<unsigned>{0,1,2},nullptr); f.AddEntity(base::RefEl::kTria(),std::vector<mesh::MeshFactory::size_type>({0,1,2}),nullptr); auto mm=f.Build(); f.PrintLists(std::cout);
 auto go=[&](auto b){ b.setBottomLeftCorner(Eigen::Vector2d(0,0)).setTopRightCorner(Eigen::Vector2d(1,1)).setNumXCells(2).setNumYCells(3); Eigen::Vector2d v; b.setBottomLeftCorner(v); b.setTopRightCorner(v); const Eigen::Vector2d w(0,0); b.setBottomLeftCorner(w); b.setTopRightCorner(w); b.setBottomLeftCorner(0,0); b.setTopRightCorner(1.0,1.0); std::shared_ptr<mesh::Mesh> r=b.Build();};
 go(mesh::utils::TPTriagMeshBuilder(std::make_unique<mesh::hybrid2d::MeshFactory>(2))); go(mesh::utils::TPQuadMeshBuilder(std::make_unique<mesh::hybrid2d::MeshFactory>(2)));go(mesh::utils::TorusMeshBuilder(std::make_unique<mesh::hybrid2d::MeshFactory>(3)));
}'''
W['geo']='''
void f(const geometry::Geometry& g, Eigen::MatrixXd p, const geometry::RefinementPattern& rp){
 auto go=[&](const auto& g){ Eigen::MatrixXd x=g.Global(p), j=g.Jacobian(p), ji=g.JacobianInverseGramian(p); Eigen::VectorXd d=g.IntegrationElement(p); std::unique_ptr<geometry::Geometry> s=g.SubGeometry(1,0); auto ch=g.ChildGeometry(rp,0); g.isAffine(); g.DimLocal(); g.DimGlobal(); g.RefEl(); geometry::Volume(g); Eigen::MatrixXd co=geometry::Corners(g);};
 Eigen::MatrixXd c23(2,3); go(g); go(geometry::Point(Eigen::Vector2d())); go(geometry::SegmentO1(Eigen::MatrixXd(2,2))); go(geometry::SegmentO1(Eigen::Matrix2d())); go(geometry::TriaO1(c23)); go(geometry::TriaO1(Eigen::Matrix<double,2,3>())); go(geometry::QuadO1(Eigen::MatrixXd(2,4))); go(geometry::Parallelogram(Eigen::MatrixXd(2,4))); go(geometry::Parallelogram(Eigen::VectorXd(2),Eigen::VectorXd(2),Eigen::VectorXd(2))); go(geometry::SegmentO2(Eigen::MatrixXd(2,3))); go(geometry::TriaO2(Eigen::MatrixXd(2,6))); go(geometry::QuadO2(Eigen::MatrixXd(2,8)));
 geometry::assertNonDegenerateQuad(p); geometry::assertNonDegenerateTriangle(p);
}'''
W['quad']='''
void f(){ for(auto r: {base::RefEl::kPoint(),base::RefEl::kSegment(),base::RefEl::kTria(),base::RefEl::kQuad()}) { auto q=quad::make_QuadRule(r,3); quad::make_QuadRuleNodal(r); q.Points(); q.Weights(); q.NumPoints(); q.Degree(); q.RefEl(); auto q2=q; q2=q; q2=std::move(q); quad::QuadRule d; quad::QuadRuleCache c; const quad::QuadRule& x=c.Get(r,2); auto c2=std::move(c); }
 quad::make_TriaQR_EdgeMidpointRule(); quad::make_QuadQR_EdgeMidpointRule(); quad::make_TriaQR_MidpointRule(); quad::make_QuadQR_MidpointRule(); quad::make_TriaQR_P1O2(); quad::make_TriaQR_P3O3(); quad::make_TriaQR_P6O4(); quad::make_TriaQR_P7O6(); quad::QuadRule z(base::RefEl::kTria(),Eigen::MatrixXd(2,1),Eigen::VectorXd(1),1); 
}'''
W['refel']='''
constexpr base::RefEl t=base::RefEl::kTria(); static_assert(t.Dimension()==2&&t.NumNodes()==3&&t.NumSubEntities(1)==3&&t.SubType(1,0)==base::RefEl::kSegment()&&t.SubSubEntity2SubEntity(1,0,1,0)==0); static_assert(base::RefEl(base::RefElType::kQuad)==base::RefEl::kQuad()); static_assert(t!=base::RefEl::kQuad());
void f(base::RefEl r){ Eigen::MatrixXd n=r.NodeCoords(); auto a=base::RefEl::NodeCoords<base::RefEl::kTria()>(); auto b=base::RefEl::NodeCoords<base::RefElType::kQuad>(); auto c=base::RefEl::NodeCoords<base::RefEl::kPoint()>(); auto d=base::RefEl::NodeCoords<base::RefElType::kSegment>(); r.ToString(); r.Id(); switch(r){case base::RefEl::kTria(): break; case base::RefEl::kQuad(): break; default:;} base::RefElType y=r; auto z=r; z=r; bool e=(r==base::RefEl::kTria()); }
'''
W['misc']='''
void f(){ base::AutoTimer at; base::Timer t; t.Start(); t.Stop(); t.Elapsed(); t.Resume(); t.IsStopped(); t.Format(); base::LehrFemInfo::PrintInfo(std::cout); base::PredicateTrue p; p(1,"x"); p(); int x=base::narrow<int>(3ul); double d=base::narrow<double>(3); LF_VERIFY_MSG(x==1,"a"<<x); LF_ASSERT_MSG(x==1,"a"<<x); LF_ASSERT_MSG_CONSTEXPR(x==1,"a"); if(x) LF_ASSERT_MSG(x==1,"a"<<x); auto l=base::InitLogger("x"); base::LfException ex("x"); base::InvalidTypeException iv("x"); throw ex; }
void g(int x){ if(x) LF_ASSERT_MSG(x,"a") else x=1; }
'''
W['dof']='''
void f(std::shared_ptr<const mesh::Mesh> m, std::shared_ptr<mesh::Mesh> m2,const mesh::Entity& e){ assemble::UniformFEDofHandler u(m,{{base::RefEl::kPoint(),1},{base::RefEl::kSegment(),2}}),u2(m2,assemble::UniformFEDofHandler::dof_map_t{}),u3(m,{{base::RefEl::kPoint(),1}},false); assemble::DynamicFEDofHandler d(m,[](const mesh::Entity&){return 1u;}),d2(m,[](const mesh::Entity&)->assemble::size_type{return 1;}); 
 auto go=[&](const auto& h){ h.NumDofs(); h.NumLocalDofs(e); h.NumInteriorDofs(e); std::span<const assemble::gdof_idx_t> g=h.GlobalDofIndices(e); for(auto i: h.GlobalDofIndices(e)){} h.InteriorGlobalDofIndices(e); const mesh::Entity& x=h.Entity(0); h.Mesh(); }; go(u); go(d); const assemble::DofHandler& b=u; go(b); auto uu=std::move(u); }
'''
W['space']='''
void f(std::shared_ptr<const mesh::Mesh> m, std::shared_ptr<mesh::Mesh> m2,const mesh::Entity& e){
 fe::HierarchicScalarFESpace<double> h(m,3),h2(m2,[](const mesh::Entity& e)->unsigned{return 2;}); auto hs=std::make_shared<fe::HierarchicScalarFESpace<C>>(m,[](const mesh::Entity& e){return 2u;}); auto h3=std::make_shared<fe::HierarchicScalarFESpace<double>>(m,2); mesh::utils::AllCodimMeshDataSet<unsigned> deg(m,2); fe::HierarchicScalarFESpace<double> h4(m,deg);
 uscalfe::UniformScalarFESpace<double> u(m,std::make_shared<uscalfe::FeLagrangeO1Tria<double>>(),std::make_shared<uscalfe::FeLagrangeO1Quad<double>>(),std::make_shared<uscalfe::FeLagrangeO1Segment<double>>(),std::make_shared<fe::FePoint<double>>(1)); uscalfe::UniformScalarFESpace<double> uu(m,std::make_shared<uscalfe::FeLagrangeO1Tria<double>>(),std::make_shared<uscalfe::FeLagrangeO1Quad<double>>(),std::make_shared<uscalfe::FeLagrangeO1Segment<double>>()); 
 uscalfe::FeSpaceLagrangeO1<double> a(m); auto b=std::make_shared<uscalfe::FeSpaceLagrangeO2<double>>(m2); u.ShapeFunctionLayout(e); u.ShapeFunctionLayout(base::RefEl::kTria()); u.NumRefShapeFunctions(e); u.NumRefShapeFunctions(base::RefEl::kTria()); u.LocGlobMap(); u.Mesh(); auto mv=std::move(a); auto mh=std::move(h);
 uscalfe::LinearFELaplaceElementMatrix lap; lap.isActive(e); lap.Eval(e); MeshFunctionConstant<double> ff(1); uscalfe::LinearFELocalLoadVector<double,decltype(ff)> ll(ff); ll.isActive(e); ll.Eval(e);
}'''

W['concepts']='''
namespace b = lf::base;
#define Y(...) static_assert(__VA_ARGS__)
#define N(...) static_assert(!(__VA_ARGS__))
using RM = Eigen::Matrix<double,2,3,Eigen::RowMajor>;
Y(b::EigenMatrix<Eigen::MatrixXd>); Y(b::EigenMatrix<Eigen::Matrix2d>); Y(b::EigenMatrix<RM>); Y(b::EigenMatrix<Eigen::Vector3d>); Y(b::EigenMatrix<const Eigen::MatrixXd>); Y(b::EigenMatrix<const Eigen::MatrixXd&>); Y(b::EigenMatrix<Eigen::MatrixXi>); Y(b::EigenMatrix<Eigen::Matrix<double,-1,-1,0,3,3>>);
N(b::EigenMatrix<Eigen::ArrayXXd>); N(b::EigenMatrix<double>); N(b::EigenMatrix<std::vector<double>>); N(b::EigenMatrix<Eigen::SparseMatrix<double>>); N(b::EigenMatrix<C>); N(b::EigenMatrix<std::string>);
Y(b::EigenMatrix<Eigen::MatrixXd,double>); N(b::EigenMatrix<Eigen::MatrixXd,float>); N(b::EigenMatrix<Eigen::MatrixXcd,double>); Y(b::EigenMatrix<Eigen::MatrixXcd,C>);
Y(b::EigenMatrix<Eigen::MatrixXd,double,3,1>); Y(b::EigenMatrix<Eigen::VectorXd,void,3,1>); N(b::EigenMatrix<Eigen::VectorXd,void,-1,2>); N(b::EigenMatrix<Eigen::Matrix2d,void,3>); N(b::EigenMatrix<Eigen::Matrix2d,void,-1,1>); Y(b::EigenMatrix<Eigen::Matrix2d,void,2,2>); Y(b::EigenMatrix<RM,double,2,3>); N(b::EigenMatrix<RM,double,3,2>); Y(b::EigenMatrix<Eigen::RowVector3d,double,1>); N(b::EigenMatrix<Eigen::RowVector3d,double,3>);
Y(b::EigenArray<Eigen::ArrayXXd>); Y(b::EigenArray<Eigen::ArrayXd>); Y(b::EigenArray<Eigen::Array<C,2,2,Eigen::RowMajor>>); Y(b::EigenArray<const Eigen::ArrayXXd&>); N(b::EigenArray<Eigen::MatrixXd>); N(b::EigenArray<double>); N(b::EigenArray<std::array<double,2>>);
Y(b::Scalar<double>); Y(b::Scalar<float>); Y(b::Scalar<int>); Y(b::Scalar<unsigned>); Y(b::Scalar<C>); Y(b::Scalar<std::complex<float>>); N(b::Scalar<Eigen::MatrixXd>); N(b::Scalar<Eigen::Matrix<double,1,1>>); N(b::Scalar<std::string>); N(b::Scalar<std::vector<double>>); N(b::Scalar<void>);
using mesh::utils::MeshFunction; using mesh::utils::MeshFunctionAT; using mesh::utils::MeshFunctionReturnType;
Y(MeshFunction<MeshFunctionAT<double>>); Y(MeshFunction<MeshFunctionAT<double>,double>); N(MeshFunction<MeshFunctionAT<double>,float>); Y(MeshFunction<MeshFunctionAT<Eigen::Vector2d>,Eigen::Vector2d>); Y(MeshFunction<const MeshFunctionAT<double>>); N(MeshFunction<MeshFunctionAT<double>&>); N(MeshFunction<const MeshFunctionAT<double>&>); N(MeshFunction<double>); N(MeshFunction<Eigen::MatrixXd>); N(MeshFunction<Eigen::Vector2d>); N(MeshFunction<std::string>);
struct F1 { double operator()(const Eigen::Vector2d&) const; }; struct F2 { double operator()(const mesh::Entity&, const Eigen::MatrixXd&) const; }; struct F3 { std::vector<C> operator()(const mesh::Entity&, const Eigen::MatrixXd&) const; }; struct F4 { F4(const F4&)=delete; std::vector<C> operator()(const mesh::Entity&, const Eigen::MatrixXd&) const; }; struct F5 { std::vector<double> operator()(const mesh::Entity&) const; }; struct F6 { std::vector<double> operator()(mesh::Entity&, const Eigen::MatrixXd&) const; };
N(MeshFunction<F1>); N(MeshFunction<F2>); Y(MeshFunction<F3>); Y(MeshFunction<F3,C>); N(MeshFunction<F3,double>); N(MeshFunction<F4>); N(MeshFunction<F5>); N(MeshFunction<F6>);
Y(MeshFunction<MeshFunctionConstant<int>,int>); Y(MeshFunction<decltype(MeshFunctionGlobal(F1())),double>); Y(MeshFunction<fe::MeshFunctionFE<double,double>,double>); Y(MeshFunction<fe::MeshFunctionFE<double,C>,C>); Y(MeshFunction<fe::MeshFunctionGradFE<double,double>>); Y(MeshFunction<refinement::MeshFunctionTransfer<MeshFunctionConstant<int>>,int>);
Y(std::is_same_v<MeshFunctionReturnType<F3>,C>); Y(std::is_same_v<MeshFunctionReturnType<MeshFunctionConstant<bool>>,bool>); 
using assemble::EntityMatrixProvider; using assemble::EntityVectorProvider;
Y(EntityMatrixProvider<assemble::EntityMatrixProviderAT<double>>); Y(EntityMatrixProvider<assemble::EntityMatrixProviderAT<C>>); Y(EntityVectorProvider<assemble::EntityVectorProviderAT<double>>); Y(EntityVectorProvider<assemble::EntityVectorProviderAT<C>>);
template<class A, class R> struct P { A isActive(const mesh::Entity&); R Eval(const mesh::Entity&); };
template<class A, class R> struct PC { A isActive(const mesh::Entity&) const; R Eval(const mesh::Entity&) const; };
template<class A, class R> struct PM { A isActive(mesh::Entity&); R Eval(mesh::Entity&); };
struct NoA { Eigen::MatrixXd Eval(const mesh::Entity&); }; struct NoE { bool isActive(const mesh::Entity&); };
Y(EntityMatrixProvider<P<bool,Eigen::MatrixXd>>); Y(EntityMatrixProvider<PC<bool,Eigen::Matrix3d>>); Y(EntityMatrixProvider<const PC<bool,Eigen::Matrix3d>>); N(EntityMatrixProvider<const P<bool,Eigen::Matrix3d>>); Y(EntityMatrixProvider<P<bool,const Eigen::MatrixXd&>>); Y(EntityMatrixProvider<P<bool,Eigen::MatrixXcd>>); N(EntityMatrixProvider<P<int,Eigen::MatrixXd>>); N(EntityMatrixProvider<P<bool,double>>); N(EntityMatrixProvider<P<bool,void>>); N(EntityMatrixProvider<P<bool,Eigen::ArrayXXd>>); N(EntityMatrixProvider<PM<bool,Eigen::MatrixXd>>); N(EntityMatrixProvider<NoA>); N(EntityMatrixProvider<NoE>); N(EntityMatrixProvider<int>);
Y(EntityVectorProvider<P<bool,Eigen::VectorXd>>); Y(EntityVectorProvider<PC<bool,Eigen::Vector3d>>); Y(EntityVectorProvider<P<bool,Eigen::VectorXcd>>); N(EntityVectorProvider<P<bool,Eigen::Matrix2d>>); N(EntityVectorProvider<P<bool,Eigen::RowVector3d>>); N(EntityVectorProvider<P<int,Eigen::VectorXd>>); N(EntityVectorProvider<P<bool,double>>); N(EntityVectorProvider<P<bool,std::vector<double>>>); N(EntityVectorProvider<PM<bool,Eigen::VectorXd>>); N(EntityVectorProvider<NoA>); N(EntityVectorProvider<NoE>);
'''
# (what, text): programs that must be rejected
BAD=[
 ('modifying entities of a mesh','void f(const mesh::Mesh& m){ mesh::Entity* e=m.Entities(0)[0]; }'),
 ('writing through a const CodimMeshDataSet','void f(const mesh::utils::CodimMeshDataSet<int>& d, const mesh::Entity& e){ d(e)=1; }'),
 ('writing through a MeshDataSet','void f(const mesh::utils::MeshDataSet<int>& d, const mesh::Entity& e){ d(e)=1; }'),
 ('copying a mesh hierarchy','void f(const refinement::MeshHierarchy& h){ auto g=h; }'),
 ('copying an entity','void f(const mesh::hybrid2d::Triangle& t){ auto g=t; }'),
 ('a matrix provider without isActive in AssembleMatrixLocally','struct P{Eigen::MatrixXd Eval(const mesh::Entity&);}; void f(const assemble::DofHandler& d, P& p){ assemble::AssembleMatrixLocally<assemble::COOMatrix<double>>(0,d,p); }'),
 ('a vector provider returning a matrix in AssembleVectorLocally','struct P{bool isActive(const mesh::Entity&);Eigen::Matrix2d Eval(const mesh::Entity&);}; void f(const assemble::DofHandler& d, P& p, Eigen::VectorXd& v){ assemble::AssembleVectorLocally(0,d,p,v); }'),
 ('integrating something that is not a mesh function','void f(const mesh::Mesh& m){ fe::IntegrateMeshFunction(m,[](const Eigen::Vector2d& x){return 1.;},2); }'),
 ('projecting something that is not a mesh function','void f(const fe::ScalarFESpace<double>& s){ fe::NodalProjection(s,[](const Eigen::Vector2d& x){return 1.;}); }'),
 ('adding a mesh function and a number','void f(MeshFunctionConstant<double> a){ auto b=a+1.0; }'),
 ('modifying the points of a quadrature rule','void f(quad::QuadRule& q){ q.Points()(0,0)=1; }'),
 ('a cached quadrature rule that can be modified','void f(quad::QuadRuleCache& q){ quad::QuadRule& r=q.Get(base::RefEl::kTria(),1); }'),
 ('modifying a mesh of a const hierarchy','void f(const refinement::MeshHierarchy& h){ std::shared_ptr<mesh::Mesh> m=h.getMesh(0); }'),
]
