// M07 batch and history independence, M08 objectivity, reparametrisation, plane/space agreement
#include "matgen.h"
using namespace gen;

static const int OUTS[]={ (int)MaterialOutput::Generic,(int)MaterialOutput::Density,(int)MaterialOutput::VectorN,(int)MaterialOutput::VectorM,(int)MaterialOutput::CauchyVectorN,(int)MaterialOutput::CauchyVectorM,
  (int)MaterialOutput::MatrixA,(int)MaterialOutput::MatrixB,(int)MaterialOutput::MatrixC,(int)MaterialOutput::MatrixD,(int)MaterialOutput::PStress,(int)MaterialOutput::PStressDir,(int)MaterialOutput::PStressN,(int)MaterialOutput::PStressM,
  (int)MaterialOutput::PCauchyStressN,(int)MaterialOutput::PCauchyStressM,(int)MaterialOutput::PStrainN,(int)MaterialOutput::PStrainM,(int)MaterialOutput::Stretch,(int)MaterialOutput::StretchDir,(int)MaterialOutput::TensionField,
  (int)MaterialOutput::Strain,(int)MaterialOutput::StrainN,(int)MaterialOutput::StrainM,(int)MaterialOutput::Stress,(int)MaterialOutput::StressN,(int)MaterialOutput::StressM,(int)MaterialOutput::CauchyStressN,(int)MaterialOutput::CauchyStressM,
  (int)MaterialOutput::Spec2CovTransform,(int)MaterialOutput::Spec2ConTransform,(int)MaterialOutput::Cov2CartTransform,(int)MaterialOutput::Con2CartTransform,(int)MaterialOutput::StretchTransform,(int)MaterialOutput::PStressTransform,
  (int)MaterialOutput::Thickness,(int)MaterialOutput::Parameters,(int)MaterialOutput::Deformation };
static const int NO=sizeof(OUTS)/sizeof(int);
static const int INTS[]={ (int)MaterialOutput::Density,(int)MaterialOutput::VectorN,(int)MaterialOutput::VectorM,(int)MaterialOutput::CauchyVectorN,(int)MaterialOutput::CauchyVectorM,(int)MaterialOutput::MatrixA,(int)MaterialOutput::MatrixB,(int)MaterialOutput::MatrixC,(int)MaterialOutput::MatrixD,(int)MaterialOutput::PStressN,(int)MaterialOutput::PStressM };
static const int NI=sizeof(INTS)/sizeof(int);
static bool perHeight(int id){ return id!=(int)MaterialOutput::Density && id!=(int)MaterialOutput::Thickness && id!=(int)MaterialOutput::Parameters; }
static bool spectral(int id){ return id==(int)MaterialOutput::StretchDir||id==(int)MaterialOutput::PStressDir||id==(int)MaterialOutput::Spec2CovTransform||id==(int)MaterialOutput::Spec2ConTransform||id==(int)MaterialOutput::StretchTransform||id==(int)MaterialOutput::PStressTransform; }
// distinct principal values, so that principal directions are well defined
static bool distinct(Scene&sc){ for(int k=0;k<sc.n();k++)for(int j=0;j<sc.z.rows();j++){ M2 L=ref::chol(sc.Go(j,k)),Li=ref::inv(L),C=ref::mul(ref::mul(Li,sc.Gd(j,k)),ref::tr(Li)); R w[2];M2 q; ref::eig2(C,w,q); if(!(w[1]-w[0]>1e-4)) return false; 
   // principal stresses away from zero as well
   if(std::abs(w[1]-1)<1e-3||std::abs(w[0]-1)<1e-3) return false; } return true; }
static double colScale(const Mat&a){ double m=1e-300; for(int j=0;j<a.cols();j++)for(int i=0;i<a.rows();i++) m=std::max(m,std::abs(a(i,j))); return m; }

static void cmp(Ctx&ctx,const Mat&a,const Mat&b,bool dir,double scale,double tol,const std::string&site)
{
    if(!dir){ ctx.closeM(a,b,scale,tol,site); return; }
    // directions: up to the sign of each vector
    ctx.check(a.rows()==b.rows()&&a.cols()==b.cols()&&a.rows()==9,site,"shape");
    for(int q=0;q<a.cols();q++) for(int d=0;d<3;d++){ double s=0; for(int i=0;i<3;i++) s+=a(3*d+i,q)*b(3*d+i,q); double sg=s<0?-1:1; for(int i=0;i<3;i++) ctx.close(sg*a(3*d+i,q),b(3*d+i,q),1,tol,site); }
}

PROP(M07,batch,2500,"every law; each output at several points and heights at once against the same output of a fresh material at one point and one height, after a random history of other evaluations; non-trivial: more than one point or height")
{
    int dim=dimOf(ctx.s); Combo c=anyCombo(ctx);
    Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.4,0.1,5,3);
    int n=sc.n(),nz=sc.z.rows(); ctx.nontrivial(n*nz>1); ctx.label(cname(c,dim));
    auto mm=sc.m.make(sc.mp);
    // history: evaluations of other outputs, other points, another deformed configuration
    gsMultiPatch<real_t> other=sc.mp; other.patch(0).scale(1.05);
    int h=ctx.s.range(0,3); ctx.desc<<" hist=";
    for(int i=0;i<h;i++)
    {
        Mat u=points(ctx.s,ctx.s.range(1,4)), z=zpoints(ctx.s,ctx.s.range(1,3),1,false); bool o=ctx.s.flag(40); const gsMultiPatch<real_t>*d=o?&other:&sc.def;
        if(o && c.comp) d=&sc.mp;
        // restricted to points where the law is evaluable: the scene's own
        if(ctx.s.flag(30)){ int id=INTS[ctx.s.draw(NI)]; ctx.desc<<"I:"<<outName(id)<<","; evalInt(id,mm.get(),d,sc.u.leftCols(std::min<int>(u.cols(),n))); }
        else { int id=OUTS[ctx.s.draw(NO)]; ctx.desc<<outName(id)<<","; evalOut(id,mm.get(),d,sc.z.topRows(1),sc.u.leftCols(std::min<int>(u.cols(),n))); }
    }
    bool ok=distinct(sc);
    int m=ctx.s.range(1,3);
    for(int i=0;i<m;i++)
    {
        bool in=ctx.s.flag(25); int id= in?INTS[ctx.s.draw(NI)]:OUTS[ctx.s.draw(NO)]; ctx.desc<<" out="<<(in?"I:":"")<<outName(id);
        if(spectral(id)&&!ok) continue; if(id==(int)MaterialOutput::TensionField && !ok) continue;
        std::string site=std::string(in?"integrated ":"")+outName(id)+" "+cname(c,dim);
        bool dir= id==(int)MaterialOutput::StretchDir||id==(int)MaterialOutput::PStressDir;
        Mat A= in? evalInt(id,mm.get(),&sc.def,sc.u) : evalOut(id,mm.get(),&sc.def,sc.z,sc.u);
        int H= in||!perHeight(id) ? 1 : nz;
        ctx.check(A.cols()==n*H,"columns of "+site,"cols "+std::to_string(A.cols()));
        int k=ctx.s.draw(n), j=ctx.s.draw(H);
        auto fresh=sc.m.make(sc.mp); Mat uk=sc.u.col(k), zj=sc.z.block(j,0,1,1);
        Mat B= in? evalInt(id,fresh.get(),&sc.def,uk) : evalOut(id,fresh.get(),&sc.def,zj,uk);
        ctx.check(B.cols()==1&&B.rows()==A.rows(),"shape of "+site);
        bool transf = id==(int)MaterialOutput::Spec2CovTransform||id==(int)MaterialOutput::Spec2ConTransform||id==(int)MaterialOutput::StretchTransform||id==(int)MaterialOutput::PStressTransform;
        double scl=colScale(A); Mat Ak=A.col(j*n+k);
        if(transf){ Ak=Ak.cwiseAbs(); B=B.cwiseAbs(); }
        bool strain= id==(int)MaterialOutput::PStrainN||id==(int)MaterialOutput::PStrainM||id==(int)MaterialOutput::Strain||id==(int)MaterialOutput::StrainN||id==(int)MaterialOutput::StrainM;
        double fl= strain? 1 : (sc.m.E.c0)*1.0; if(!transf&&!dir) scl=std::max(scl, (in?1e-6:1e-2)*fl);
        cmp(ctx,Ak,B,dir,scl,1e-8,site);
    }
}
PROP(M07,heights,2500,"every law; direct evaluation with a different set of heights at every point, columns permuted; non-trivial: more than one point")
{
    int dim=dimOf(ctx.s); Combo c=anyCombo(ctx);
    Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.4,0.1,5,3);
    int n=sc.n(),nz=sc.z.rows(); ctx.nontrivial(n>1); ctx.label(cname(c,dim));
    sc.z=zpoints(ctx.s,nz,n,true);
    auto mm=sc.m.make(sc.mp); mm->setDeformed(&sc.def);
    std::vector<int> pm(n); for(int i=0;i<n;i++)pm[i]=i; for(int i=n-1;i>0;i--) std::swap(pm[i],pm[ctx.s.draw(i+1)]);
    Mat up(2,n),zp(nz,n); for(int i=0;i<n;i++){ up.col(i)=sc.u.col(pm[i]); zp.col(i)=sc.z.col(pm[i]); }
    int w=ctx.s.draw(9); static const char*nm[]={"matrix","vector","CauchyVector","stress","strain","pstress","pstrain","pstretch","detF"}; ctx.desc<<" fn="<<nm[w];
    auto ev=[&](gsMaterialMatrixBase<real_t>*m,const Mat&u,const Mat&z)->Mat{ MaterialOutput g=MaterialOutput::Generic; switch(w){ case 0: return m->eval3D_matrix(0,u,z,MaterialOutput::MatrixA); case 1: return m->eval3D_vector(0,u,z,g); case 2: return m->eval3D_CauchyVector(0,u,z,g);
        case 3: return m->eval3D_stress(0,u,z,g); case 4: return m->eval3D_strain(0,u,z); case 5: return m->eval3D_pstress(0,u,z,g); case 6: return m->eval3D_pstrain(0,u,z); case 7: return m->eval3D_pstretch(0,u,z); default: return m->eval3D_detF(0,u,z,g);} };
    Mat A=ev(mm.get(),sc.u,sc.z), P=ev(mm.get(),up,zp); std::string site=std::string(nm[w])+" "+cname(c,dim);
    ctx.check(A.cols()==n*nz&&P.cols()==n*nz,"columns of "+site);
    double scl=std::max(colScale(A),1e-2*(w==4||w>=6?1.0:sc.m.E.c0));
    for(int i=0;i<n;i++)for(int j=0;j<nz;j++) ctx.closeM(Mat(P.col(j*n+i)),Mat(A.col(j*n+pm[i])),scl,1e-8,"permuted "+site);
    int k=ctx.s.draw(n),j=ctx.s.draw(nz); auto fresh=sc.m.make(sc.mp); fresh->setDeformed(&sc.def); Mat B=ev(fresh.get(),sc.u.col(k),sc.z.block(j,k,1,1));
    ctx.closeM(Mat(A.col(j*n+k)),B,scl,1e-8,"single "+site);
}
PROP(M07,clone,800,"a clone or copy of a material answers as the original, and is not affected by later changes to the original; non-trivial: strain > 1e-6")
{
    int dim=dimOf(ctx.s); Combo c=anyCombo(ctx);
    Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.4); ctx.nontrivial(maxStrain(sc)>1e-6);
    auto mm=sc.m.make(sc.mp); int ng=ctx.s.range(1,5); mm->options().setInt("NumGauss",ng);
    bool warm=ctx.s.flag(); if(warm) evalI<MaterialOutput::VectorN>(mm.get(),&sc.def,sc.u);
    auto cl=mm->clone(); int id=INTS[ctx.s.draw(NI)]; ctx.desc<<" out="<<outName(id);
    Mat A=evalInt(id,mm.get(),&sc.def,sc.u);
    // disturb the original
    Field f; f.dim=dim; f.c0=sc.m.t.c0*2; f.make(); mm->setThickness(*f.fn); Field e; e.dim=dim; e.c0=sc.m.E.c0*3; e.make(); mm->setParameter(0,*e.fn); mm->options().setInt("NumGauss",ng+1); evalInt(INTS[ctx.s.draw(NI)],mm.get(),&sc.mp,sc.u);
    Mat B=evalInt(id,cl.get(),&sc.def,sc.u);
    ctx.closeM(B,A,std::max(colScale(A),1e-6*sc.m.E.c0),1e-9,"clone "+outName(id)+" "+cname(c,dim));
}


// typed copies, assignments and moves
typedef std::unique_ptr<gsMaterialMatrixBase<real_t> > BP;
template<class M> static bool another(gsMaterialMatrixBase<real_t>*a,gsMaterialMatrixBase<real_t>*b,int how,BP&r)
{
    M*x=dynamic_cast<M*>(a),*y=dynamic_cast<M*>(b); if(!x||!y) return false;
    switch(how){ case 0: r.reset(new M(*x)); break; case 1: r.reset(new M(*y)); *static_cast<M*>(r.get())=*x; break; case 2: r.reset(new M(std::move(*x))); break; case 3: r.reset(new M(*y)); *static_cast<M*>(r.get())=std::move(*x); break; }
    return true;
}
template<short_t d,bool c> static bool anotherNL(gsMaterialMatrixBase<real_t>*a,gsMaterialMatrixBase<real_t>*b,int how,BP&r)
{
    return another<gsMaterialMatrixNonlinear<d,real_t,encodeMat_id<Material::NH,Implementation::Analytical>::id,c> >(a,b,how,r)||another<gsMaterialMatrixNonlinear<d,real_t,encodeMat_id<Material::MR,Implementation::Analytical>::id,c> >(a,b,how,r)||another<gsMaterialMatrixNonlinear<d,real_t,encodeMat_id<Material::OG,Implementation::Spectral>::id,c> >(a,b,how,r);
}
PROP(M07,assign,400,"copies, assignments over another material and moves of a material answer as the original did; non-trivial: strain > 1e-6")
{
    Source&s=ctx.s; int dim=dimOf(s); Combo c{0,false,1}; int k=s.range(0,3); c.comp=k&&s.flag(50); if(k==1) c.mat=1; if(k==2) c.mat=3; if(k==3){ c.mat=4; c.impl=3; }
    Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.3); ctx.nontrivial(maxStrain(sc)>1e-6); int how=s.range(0,3),ng=s.range(1,5); ctx.desc<<" how="<<how; auto mm=sc.m.make(sc.mp); if(s.flag(50)) mm->options().setInt("NumGauss",ng); if(s.flag(50)) evalI<MaterialOutput::VectorN>(mm.get(),&sc.def,sc.u); int id=INTS[s.draw(NI)]; ctx.desc<<" out="<<outName(id); Mat A=evalInt(id,mm.get(),&sc.def,sc.u);
    MatSpec o=sc.m; o.t.c0*=2; o.t.make(); o.E.c0*=3; o.E.make(); o.rho.c0*=2; o.rho.make(); if(o.mat==3){ o.ratio.c0*=1.5; o.ratio.make(); } auto oo=o.make(sc.mp); if(s.flag(50)) evalI<MaterialOutput::VectorN>(oo.get(),&sc.mp,sc.u);
    BP r; bool ok= dim==2? another<gsMaterialMatrixLinear<2,real_t> >(mm.get(),oo.get(),how,r)||anotherNL<2,false>(mm.get(),oo.get(),how,r)||anotherNL<2,true>(mm.get(),oo.get(),how,r) : another<gsMaterialMatrixLinear<3,real_t> >(mm.get(),oo.get(),how,r)||anotherNL<3,false>(mm.get(),oo.get(),how,r)||anotherNL<3,true>(mm.get(),oo.get(),how,r);
    ctx.check(ok,"class of the material"); if(how>=2||s.flag(50)) mm.reset(); if(s.flag(50)) oo.reset(); Mat B=evalInt(id,r.get(),&sc.def,sc.u); ctx.closeM(B,A,std::max(colScale(A),1e-6*sc.m.E.c0),1e-9,"M07/assign "+outName(id)+" "+cname(c,dim));
    Mat D=evalI<MaterialOutput::Density>(r.get(),&sc.def,sc.u); Mat x; ctx.check((int)r->numParameters()==(int)sc.m.pars().size(),"M07/assign number of parameters");
    for(int q=0;q<D.cols();q++){ V3 X=sc.so[q].x; ctx.close(D(0,q),sc.m.t(X)*sc.m.rho(X),sc.m.t(X)*sc.m.rho(X),1e-10,"M07/assign density"); }
}

// ---------------------------------------------------------------------------------------------
// the same surface with another parametrisation (the generated knot vectors are symmetric): 0,1 mirror a direction, 2 both, 3 swap directions, 4 stretch direction 0 by 3
static gsGeometry<real_t>::uPtr reparam(const gsGeometry<real_t>&g,int how)
{
    const gsTensorNurbs<2,real_t>*nb=dynamic_cast<const gsTensorNurbs<2,real_t>*>(&g); const gsTensorBSpline<2,real_t>*bs=dynamic_cast<const gsTensorBSpline<2,real_t>*>(&g);
    gsKnotVector<real_t> k0= nb?nb->knots(0):bs->knots(0), k1=nb?nb->knots(1):bs->knots(1); Mat w=nb?Mat(nb->weights()):Mat(), c=g.coefs(), c2=c,w2=w; int n0=k0.size()-k0.degree()-1,n1=k1.size()-k1.degree()-1;
    for(int j=0;j<n1;j++)for(int i=0;i<n0;i++){ int s=i+n0*j,d=s; if(how==0||how==2||how==1){ int a=how==1?i:n0-1-i,b=how==0?j:n1-1-j; d=a+n0*b; } if(how==3) d=j+n1*i; c2.row(d)=c.row(s); if(nb) w2.row(d)=w.row(s); }
    if(how==3) std::swap(k0,k1); if(how==4) k0.transform(0,3);
    if(nb) return gsGeometry<real_t>::uPtr(new gsTensorNurbs<2,real_t>(k0,k1,c2,w2));
    return gsGeometry<real_t>::uPtr(new gsTensorBSpline<2,real_t>(k0,k1,c2));
}
static Mat scalars(gsMaterialMatrixBase<real_t>*m,const gsMultiPatch<real_t>*def,const Mat&z,const Mat&u)
{
    Mat a=evalZ<MaterialOutput::PStress>(m,def,z,u),b=evalZ<MaterialOutput::Stretch>(m,def,z,u),c=evalZ<MaterialOutput::PStrainN>(m,def,z,u);
    Mat r(7,a.cols()); r.topRows(2)=a.topRows(2); r.middleRows(2,3)=b; r.bottomRows(2)=c.topRows(2);
    for(int q=0;q<r.cols();q++){ if(r(0,q)>r(1,q)) std::swap(r(0,q),r(1,q)); if(r(5,q)>r(6,q)) std::swap(r(5,q),r(6,q)); }
    return r;
}
static void cmpScalars(Ctx&ctx,const Mat&a,const Mat&b,double E,const std::string&site)
{
    ctx.check(a.cols()==b.cols(),site);
    for(int q=0;q<a.cols();q++) for(int i=0;i<7;i++) ctx.close(a(i,q),b(i,q),i<2? 20*E+std::abs(b(i,q)) : 1+std::abs(b(i,q)),1e-7,site,i<2?"principal stress":i<5?"stretch":"principal strain");
}
PROP(M08,objectivity,2000,"every law in space; a rigid motion superposed on the deformed shell (and, for constant parameters, on both) leaves stress, tangent and resultant components unchanged; non-trivial: strain > 1e-6 and rotation > 1e-3")
{
    Combo c=anyCombo(ctx); int dim=ctx.s.flag(25)?2:3;
    Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.4); bool both=ctx.s.flag(40); if(both){ sc.m.freeze(); }
    ctx.require(admissible(sc,0.4,2.8));
    auto mm=sc.m.make(sc.mp); ctx.label(cname(c,dim)+(both?" both":""));
    Mat3 q; double F2[4]; if(dim==3) q=rotation(ctx.s); else { double t=ctx.s.sym(3); F2[0]=F2[3]=std::cos(t); F2[1]=-std::sin(t); F2[2]=-F2[1]; }
    double tr[3]={ctx.s.sym(10),ctx.s.sym(10),ctx.s.sym(10)};
    auto move=[&](gsMultiPatch<real_t>&g){ Mat&co=g.patch(0).coefs(); if(dim==3) rotate(co,q); else applyT(co,F2,2); for(int i=0;i<dim;i++) for(int r=0;r<co.rows();r++) co(r,i)+=tr[i]; };
    gsMultiPatch<real_t> d2=sc.def, o2=sc.mp; move(d2); if(both) move(o2);
    auto m2=sc.m.make(o2); ctx.nontrivial(maxStrain(sc)>1e-6 && (dim==2? std::abs(F2[1])>1e-3 : std::abs(q.a[0][0]-1)+std::abs(q.a[1][1]-1)>1e-6));
    static const int ids[]={(int)MaterialOutput::VectorN,(int)MaterialOutput::VectorM,(int)MaterialOutput::MatrixA,(int)MaterialOutput::MatrixB,(int)MaterialOutput::MatrixC,(int)MaterialOutput::MatrixD,(int)MaterialOutput::CauchyVectorN,(int)MaterialOutput::Density};
    R tm=0,gm=0; for(int k=0;k<sc.n();k++){ tm=std::max<R>(tm,sc.m.t(sc.so[k].x)); gm=std::max(gm,ref::inv(sc.so[k].A)(0,0)+ref::inv(sc.so[k].A)(1,1)); }
    for(int id:ids){ Mat a=evalInt(id,mm.get(),&sc.def,sc.u), b=evalInt(id,m2.get(),&d2,sc.u);
        double scl= id==(int)MaterialOutput::Density? 1000 : sc.m.E.c0*tm*20*std::max<R>(1,gm*gm); if(id==(int)MaterialOutput::VectorM||id==(int)MaterialOutput::MatrixB||id==(int)MaterialOutput::MatrixC) scl*=tm; if(id==(int)MaterialOutput::MatrixD) scl*=tm*tm;
        ctx.closeM(b,a,std::max(scl,colScale(a)),1e-7,"objectivity "+outName(id)+" "+cname(c,dim)); }
    cmpScalars(ctx,scalars(m2.get(),&d2,sc.z,sc.u),scalars(mm.get(),&sc.def,sc.z,sc.u),sc.m.E.c0,"objectivity scalars "+cname(c,dim));
}
PROP(M08,reparam,2000,"every law; parameter domain swapped, mirrored or rescaled: principal stresses, strains and stretches at the same material points (heights mirrored when the normal flips) do not change; non-trivial: strain > 1e-6")
{
    int dim=dimOf(ctx.s); Combo c=anyCombo(ctx);
    Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.4); ctx.nontrivial(maxStrain(sc)>1e-6); ctx.label(cname(c,dim));
    int how=ctx.s.range(0,4); ctx.desc<<" how="<<how; 
    gsMultiPatch<real_t> o2,d2; Mat u2=sc.u,z2=sc.z; bool flip=false;
    auto tr=[&](const gsMultiPatch<real_t>&g){ return reparam(g.patch(0),how); };
    o2.addPatch(tr(sc.mp)); d2.addPatch(tr(sc.def));
    if(how==0){ u2.row(0)=(1-sc.u.row(0).array()).matrix(); flip=true; } if(how==1){ u2.row(1)=(1-sc.u.row(1).array()).matrix(); flip=true; } if(how==2) u2=(1-sc.u.array()).matrix();
    if(how==3){ Mat t=u2.row(0); u2.row(0)=u2.row(1); u2.row(1)=t; flip=true; } if(how==4) u2.row(0)*=3;
    Mat x0=sc.mp.patch(0).eval(sc.u),x1=o2.patch(0).eval(u2); ctx.require((x0-x1).cwiseAbs().maxCoeff()<1e-9);
    if(flip) z2=-z2;
    auto m1=sc.m.make(sc.mp),m2=sc.m.make(o2);
    cmpScalars(ctx,scalars(m2.get(),&d2,z2,u2),scalars(m1.get(),&sc.def,sc.z,sc.u),sc.m.E.c0,"reparametrisation "+cname(c,dim));
    Mat r1=evalI<MaterialOutput::Density>(m1.get(),&sc.def,sc.u),r2=evalI<MaterialOutput::Density>(m2.get(),&d2,u2); ctx.closeM(r2,r1,colScale(r1),1e-9,"density");
}
PROP(M08,planar,2000,"every law; a planar problem gives the same stresses, tangents, stretches and principal values as the same problem embedded as a flat shell in space; non-trivial: strain > 1e-6")
{
    Combo c=anyCombo(ctx); Scene sc=scene(ctx,2,c.mat,c.comp,c.impl,0.45); ctx.nontrivial(maxStrain(sc)>1e-6); ctx.label(cname(c,2));
    for(int i=0;i<2;i++) { ctx.require(sc.mp.basis(0).degree(i)>=1); }
    gsMultiPatch<real_t> o3=sc.mp,d3=sc.def; o3.embed(3); d3.embed(3);
    MatSpec m3=sc.m; m3.dim=3; auto up=[](Field&f){ if(f.fn){ f.dim=3; f.c[2]=0; f.make(); } }; up(m3.t);up(m3.rho);up(m3.E);up(m3.nu);up(m3.ratio); for(auto&f:m3.mu)up(f); for(auto&f:m3.al)up(f);
    auto a=sc.m.make(sc.mp),b=m3.make(o3);
    R gm=1; for(int k=0;k<sc.n();k++){ M2 gi=ref::inv(sc.so[k].A); gm=std::max(gm,gi(0,0)+gi(1,1)); }
    static const int ids[]={(int)MaterialOutput::VectorN,(int)MaterialOutput::MatrixA,(int)MaterialOutput::Strain,(int)MaterialOutput::Stress,(int)MaterialOutput::CauchyStressN,(int)MaterialOutput::Stretch,(int)MaterialOutput::PStress,(int)MaterialOutput::PCauchyStressN,(int)MaterialOutput::PStrainN,(int)MaterialOutput::Deformation,(int)MaterialOutput::Thickness,(int)MaterialOutput::Parameters};
    for(int id:ids){ Mat x=evalOut(id,a.get(),&sc.def,sc.z,sc.u),y=evalOut(id,b.get(),&d3,sc.z,sc.u); ctx.closeM(x,y,std::max<double>(colScale(y),sc.m.E.c0*20*gm),1e-7,"planar "+outName(id)+" "+cname(c,2)); }
    for(int id:{(int)MaterialOutput::VectorN,(int)MaterialOutput::MatrixA,(int)MaterialOutput::Density,(int)MaterialOutput::MatrixD}){ Mat x=evalInt(id,a.get(),&sc.def,sc.u),y=evalInt(id,b.get(),&d3,sc.u); ctx.closeM(x,y,colScale(y)+1e-12,1e-6,"planar integrated "+outName(id)+" "+cname(c,2)); }
}
PROP(M08,units,1500,"every law; changing the unit of length (geometry and thickness) or of force (moduli) rescales stresses and resultants accordingly; non-trivial: strain > 1e-6")
{
    int dim=dimOf(ctx.s); Combo c=anyCombo(ctx); Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.4); sc.m.freeze(); ctx.nontrivial(maxStrain(sc)>1e-6); ctx.label(cname(c,dim)); ctx.require(admissible(sc,0.4,2.8));
    double L=ctx.s.logreal(0.2,5,1.0), P=ctx.s.logreal(1e-3,1e3,1.0); ctx.desc<<" L="<<L<<" P="<<P;
    gsMultiPatch<real_t> o2=sc.mp,d2=sc.def; o2.patch(0).scale(L); d2.patch(0).scale(L);
    MatSpec m2=sc.m; m2.t.c0*=L; m2.t.make(); m2.E.c0*=P; m2.E.make(); for(auto&f:m2.mu){ f.c0*=P; f.make(); }
    auto a=sc.m.make(sc.mp),b=m2.make(o2);
    Mat x=scalars(a.get(),&sc.def,sc.z,sc.u),y=scalars(b.get(),&d2,sc.z,sc.u); y.topRows(2)/=P; cmpScalars(ctx,y,x,sc.m.E.c0,"units "+cname(c,dim));
    // N^{ab} ~ P L / L^2, D^{abcd} ~ P L^3 / L^4
    Mat N1=evalI<MaterialOutput::VectorN>(a.get(),&sc.def,sc.u),N2=evalI<MaterialOutput::VectorN>(b.get(),&d2,sc.u); R gm=1; for(int k=0;k<sc.n();k++){ M2 gi=ref::inv(sc.so[k].A); gm=std::max(gm,gi(0,0)+gi(1,1)); }
    ctx.closeM(Mat(N2*(L/P)),N1,colScale(N1)+20*gm*sc.m.E.c0*sc.m.t.c0,1e-7,"units N "+cname(c,dim));
    Mat D1=evalI<MaterialOutput::MatrixD>(a.get(),&sc.def,sc.u),D2=evalI<MaterialOutput::MatrixD>(b.get(),&d2,sc.u); ctx.closeM(Mat(D2*(L/P)),D1,colScale(D1),1e-6,"units D "+cname(c,dim));
}
PROP(M07,single,500,"every law, also as tension-field material: the evaluations of one point at one height against the evaluations of lists of points and heights; non-trivial: strain > 1e-6")
{
    Source&s=ctx.s; int dim=dimOf(s); Combo c=anyCombo(ctx); Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.25,0.05,3,2); ctx.nontrivial(maxStrain(sc)>1e-6); ctx.label(cname(c,dim)); bool wrap=s.flag(25),lin=c.mat==0; if(wrap) sc.z.setZero();
    typedef gsMaterialMatrixBase<real_t>::uPtr MP; auto b=sc.m.make(sc.mp),b2=sc.m.make(sc.mp); auto w=[&](gsMaterialMatrixBase<real_t>&m){ if(dim==3) return lin? MP(new gsMaterialMatrixTFT<3,real_t,true>(m)):MP(new gsMaterialMatrixTFT<3,real_t,false>(m)); return lin? MP(new gsMaterialMatrixTFT<2,real_t,true>(m)):MP(new gsMaterialMatrixTFT<2,real_t,false>(m)); };
    MP t,t2; if(wrap){ t=w(*b); t2=w(*b2); } gsMaterialMatrixBase<real_t>*m=wrap?t.get():b.get(),*m2=wrap?t2.get():b2.get(); m->setDeformed(&sc.def); m2->setDeformed(&sc.def); int n=sc.n(),nz=sc.z.rows(),k=s.draw(n),j=s.draw(nz),q=j*n+k; gsVector<real_t> u=sc.u.col(k); double z=sc.z(j,k); std::string nm=std::string(" ")+(wrap?"tension field ":"")+cname(c,dim);
    auto cmp=[&](const Mat&one,const Mat&all,const char*what){ ctx.check(one.cols()==1&&all.cols()==n*nz&&one.rows()==all.rows(),std::string("shape of ")+what+nm); Mat A=one,B=all.col(q); for(int i=0;i<A.size();i++) if(A.data()[i]!=A.data()[i]&&B.data()[i]!=B.data()[i]) A.data()[i]=B.data()[i]=0; ctx.closeM(A,B,std::max(1e-6,all.col(q).cwiseAbs().maxCoeff()==all.col(q).cwiseAbs().maxCoeff()?all.col(q).cwiseAbs().maxCoeff():1e-6),1e-9,what+nm); };
    switch(s.range(0,wrap?8:5))
    {
    case 0: cmp(m->eval3D_matrix(0,u,z,MaterialOutput::MatrixA),m2->eval3D_matrix(0,sc.u,sc.z,MaterialOutput::MatrixA),"matrix"); break;
    case 1: cmp(m->eval3D_vector(0,u,z,MaterialOutput::VectorN),m2->eval3D_vector(0,sc.u,sc.z,MaterialOutput::VectorN),"vector"); break;
    case 2: cmp(m->eval3D_strain(0,u,z),m2->eval3D_strain(0,sc.u,sc.z),"strain"); break;
    case 3: cmp(m->eval3D_stress(0,u,z,MaterialOutput::VectorN),m2->eval3D_stress(0,sc.u,sc.z,MaterialOutput::VectorN),"stress"); break;
    case 4: cmp(m->eval3D_CauchyStress(0,u,z,MaterialOutput::CauchyStressN),m2->eval3D_CauchyStress(0,sc.u,sc.z,MaterialOutput::CauchyStressN),"Cauchy stress"); break;
    case 5: cmp(m->eval3D_tensionfield(0,u,z,MaterialOutput::TensionField),m2->eval3D_tensionfield(0,sc.u,sc.z,MaterialOutput::TensionField),"tension field"); break;
    case 6: cmp(m->eval3D_theta(0,u,z,MaterialOutput::Theta),m2->eval3D_theta(0,sc.u,sc.z,MaterialOutput::Theta),"theta"); break;
    default: cmp(m->eval3D_gamma(0,u,z,MaterialOutput::Gamma),m2->eval3D_gamma(0,sc.u,sc.z,MaterialOutput::Gamma),"gamma");
    }
}
