#pragma once
#include "gen.h"
namespace gen {
// One material: description + core functions
struct MatSpec {
    int mat=0, impl=1; bool comp=false; int dim=3;
    Field t, rho, E, nu, ratio; std::vector<Field> mu, al;
    std::string str() const
    {
        std::ostringstream o; static const char*n[]={"SvK","NH","NHext","MR","OG"}; static const char*im[]={"Comp","Ana","Gen","Spec"};
        o<<"mat="<<n[mat]<<(mat? (comp?"c":"i"):"")<<"/"<<im[impl]<<" d="<<dim<<" t="<<t.c0<<(t.constant()?"":"*")<<" E="<<E.c0<<(E.constant()?"":"*")<<" nu="<<nu.c0<<(nu.constant()?"":"*");
        if(mat==3) o<<" ratio="<<ratio.c0; for(size_t i=0;i<mu.size();i++) o<<" og("<<mu[i].c0<<","<<al[i].c0<<")";
        return o.str();
    }
    std::vector<gsFunctionSet<real_t>*> pars() const
    {
        std::vector<gsFunctionSet<real_t>*> p; p.push_back(E.fn.get()); p.push_back(nu.fn.get());
        if(mat==3) p.push_back(ratio.fn.get());
        if(mat==4) for(size_t i=0;i<mu.size();i++){ p.push_back(mu[i].fn.get()); p.push_back(al[i].fn.get()); }
        return p;
    }
    ref::Law law(const V3&x) const
    {
        ref::Law l; l.mat=mat; l.comp=comp; l.E=E(x); l.nu=nu(x); if(mat==3) l.ratio=ratio(x);
        for(size_t i=0;i<mu.size();i++) l.og.push_back(std::make_pair((R)mu[i](x),(R)al[i](x)));
        return l;
    }
    void freeze(){ auto f=[](Field&a){ a.c[0]=a.c[1]=a.c[2]=0; a.make(); }; f(t);f(rho);f(E);f(nu);if(ratio.fn)f(ratio); }
    gsOptionList opts() const
    { gsOptionList o; o.addInt("Material","",mat); o.addSwitch("Compressibility","",comp); o.addInt("Implementation","",impl); return o; }
    gsMaterialMatrixBase<real_t>::uPtr make(const gsMultiPatch<real_t>&mp) const
    { return dim==2 ? getMaterialMatrix<2,real_t>(mp,*t.fn,pars(),*rho.fn,opts()) : getMaterialMatrix<3,real_t>(mp,*t.fn,pars(),*rho.fn,opts()); }
    gsMaterialMatrixBase<real_t>::uPtr makeNoRho(const gsMultiPatch<real_t>&mp) const
    { return dim==2 ? getMaterialMatrix<2,real_t>(mp,*t.fn,pars(),opts()) : getMaterialMatrix<3,real_t>(mp,*t.fn,pars(),opts()); }
    // as make, with the class of the material named
    gsMaterialMatrixBase<real_t>::uPtr makeImpl(const gsMultiPatch<real_t>&mp,int im) const { MatSpec m=*this; m.impl=im; return m.make(mp); }
};
// material law kinds
inline MatSpec matSpec(Source&s,int dim,int mat,bool comp,int impl,double tmax=0.1)
{
    MatSpec m; m.mat=mat; m.comp=comp; m.impl=impl; m.dim=dim;
    double var=0.08;
    m.t=field(s,s.logreal(1e-3,tmax,std::min(0.05,tmax)),dim,var);
    m.rho=field(s,s.logreal(0.1,100,1.0),dim,var);
    m.E=field(s,s.logreal(0.5,200,1.0),dim,var);
    double nu= (mat==0||comp) ? s.real(0.0,0.45,0.3) : s.real(0.0,0.5,0.5);
    m.nu=field(s,nu,dim, nu>0.4?0.005:0.02, nu<0.49);
    if(mat==3) m.ratio=field(s,s.real(0.2,9,7.0),dim,var);
    if(mat==4)
    {   // pairs with mu_i*alpha_i > 0 and sum mu_i alpha_i = 2 mu where possible
        int n=s.range(1,3); double mu=m.E.c0/(2*(1+nu)); std::vector<double> a,w; double sw=0;
        for(int i=0;i<n;i++){ double al=!comp&&s.flag(30)? -s.real(1.0,3.0,2.0) : s.real(1.1,4.0,2.0); a.push_back(al); w.push_back(s.real(0.2,1,1.0)); sw+=w.back(); }
        for(int i=0;i<n;i++){ Field f; f.dim=dim; f.c0=2*mu*w[i]/sw/a[i]; f.make(); m.mu.push_back(f); Field g; g.dim=dim; g.c0=a[i]; g.make(); m.al.push_back(g); }
    }
    return m;
}
// the hyperelastic (material, compressibility, implementation) combinations that the library offers
struct Combo { int mat; bool comp; int impl; };
inline const std::vector<Combo>& combos()
{
    static const std::vector<Combo> c={ {1,false,1},{1,true,1},{1,false,2},{1,true,2},{1,false,3},{1,true,3},{3,false,1},{3,true,1},{3,false,2},{3,true,2},{3,false,3},{3,true,3},{2,true,1},{2,true,2},{2,true,3},{4,false,3},{4,true,3} };
    return c;
}
// A single-patch constitutive scenario
struct Scene {
    int dim; gsMultiPatch<real_t> mp, def; Mat u, z; MatSpec m;
    std::vector<ref::Surf> so, sd;
    int n() const { return u.cols(); }
    R zeta(int j,int k) const { return (R)z(j,k)*m.t(so[k].x); }
    M2 Go(int j,int k) const { return ref::metric(so[k],zeta(j,k)); }
    M2 Gd(int j,int k) const { return ref::metric(sd[k],zeta(j,k)); }
    void surfaces(){ so.clear(); sd.clear(); for(int k=0;k<u.cols();k++){ Mat p=u.col(k); so.push_back(ref::surf(mp.patch(0),p,dim)); sd.push_back(ref::surf(def.patch(0),p,dim)); } }
};
// well-posed: surfaces regular, stretches and thickness*curvature moderate
inline bool admissible(const Scene&sc,double lmin,double lmax)
{
    for(int k=0;k<sc.n();k++)
    {
        if(!(sc.so[k].J>0.05)||!(sc.sd[k].J>0.02)) return false;
        R t=sc.m.t(sc.so[k].x); if(!(t>0)) return false;
        if(!(sc.m.E(sc.so[k].x)>0)||!(sc.m.nu(sc.so[k].x)>=0)||!(sc.m.rho(sc.so[k].x)>0)) return false;
        double numax=(sc.m.mat==0||sc.m.comp)?0.47:0.5000001; if(!(sc.m.nu(sc.so[k].x)<=numax)) return false;
        if(sc.m.mat==3 && !(sc.m.ratio(sc.so[k].x)>0.05)) return false;
        for(int sg=-4;sg<=4;sg++)
        {
            M2 go=ref::metric(sc.so[k],sg*t/8), gd=ref::metric(sc.sd[k],sg*t/8);
            if(!(go(0,0)>1e-3)||!(go(1,1)>1e-3)||!(ref::det(go)>0.03*go(0,0)*go(1,1))) return false;
            M2 L=ref::chol(go),Li=ref::inv(L),C=ref::mul(ref::mul(Li,gd),ref::tr(Li)); R w[2]; M2 q; ref::eig2(C,w,q);
            if(!(w[0]>lmin*lmin)||!(w[1]<lmax*lmax)) return false;
            // the plane-stress iteration of the compressible laws gives up (loudly) under strong area compression
            if(sc.m.comp && !(w[0]*w[1]>0.8*0.8 && w[0]*w[1]<16 && sc.m.law(sc.so[k].x).newtonOK(std::sqrt(w[0]),std::sqrt(w[1])))) return false;
            M2 c0=ref::metric(sc.so[k],0); // thickness direction: keep the shifter away from singular
            if(!(ref::det(go)>0.25L*ref::det(c0))) return false;
            M2 d0=ref::metric(sc.sd[k],0); if(!(ref::det(gd)>0.25L*ref::det(d0))) return false;
        }
    }
    return true;
}
inline void describe(std::ostream&o,const Scene&sc){ o<<" | "<<sc.m.str()<<" pts="<<sc.n()<<" nz="<<sc.z.rows()<<" deg=("<<sc.mp.basis(0).degree(0)<<","<<sc.mp.basis(0).degree(1)<<") u0=("<<sc.u(0,0)<<","<<sc.u(1,0)<<") z0="<<sc.z(0,0); }
inline double maxStrain(const Scene&sc)
{ double r=0; for(int k=0;k<sc.n();k++) for(int j=0;j<sc.z.rows();j++){ M2 e=ref::lin(0.5L,sc.Gd(j,k),-0.5L,sc.Go(j,k)); M2 A=sc.Go(j,k); r=std::max(r,(double)(std::abs(e(0,0))/A(0,0)+std::abs(e(1,1))/A(1,1)+std::abs(e(0,1))/std::sqrt(A(0,0)*A(1,1)))); } return r; }

inline gsGeometry<real_t>::uPtr cartesian(int dim)
{
    gsKnotVector<real_t> kv(0,1,0,3); gsTensorBSplineBasis<2,real_t> b(kv,kv); Mat g=b.anchors(),c(g.cols(),dim); c.setZero();
    for(int r=0;r<g.cols();r++){ c(r,0)=g(0,r); c(r,1)=g(1,r); }
    return gsGeometry<real_t>::uPtr(new gsTensorBSpline<2,real_t>(b,c));
}
inline Scene scene(Ctx&ctx,int dim,int mat,bool comp,int impl,double stretch=0.3,double tmax=0.1,int maxpts=4,int maxz=3)
{
    Source&s=ctx.s; Scene sc; sc.dim=dim;
    sc.m=matSpec(s,dim,mat,comp,impl,tmax);
    GeoOpt go; go.minDeg= dim==3?2:1;
    if(s.flag(6))
    {   // Cartesian plate with a homogeneous deformation of trace C = 2: isochoric-looking but not undeformed
        sc.mp.addPatch(cartesian(dim)); sc.def=sc.mp; double a=s.sym(0.4),b=s.sym(0.4); double l=std::sqrt(1+a),m=b/l,q=std::sqrt(std::max(0.05,1-a-m*m));
        double F[9]={0}; if(dim==3){ F[0]=l;F[1]=m;F[4]=q;F[8]=1; } else { F[0]=l;F[1]=m;F[3]=q; }
        applyT(sc.def.patch(0).coefs(),F,dim); ctx.desc<<" def=trace2("<<a<<","<<b<<")";
    }
    else
    {
    sc.mp.addPatch(patch(s,dim,go)); sc.def=sc.mp;
    DefOpt d; d.stretch=stretch; deform(s,sc.def.patch(0),dim,d,ctx.desc);
    }
    int n=s.range(1,maxpts), nz=s.range(1,maxz);
    sc.u=points(s,n); sc.z=zpoints(s,nz,n,false); sc.surfaces();
    describe(ctx.desc,sc);
    ctx.require(admissible(sc,0.4,2.8));
    return sc;
}
template<enum MaterialOutput out> Mat evalZ(gsMaterialMatrixBase<real_t>*m,const gsFunctionSet<real_t>*def,const Mat&z,const Mat&u,int p=0)
{ Mat zc=z.col(0); gsMaterialMatrixEval<real_t,out> e(m,def,zc); Mat r; e.piece(p).eval_into(u,r); return r; }
template<enum MaterialOutput out> Mat evalI(gsMaterialMatrixBase<real_t>*m,const gsFunctionSet<real_t>*def,const Mat&u,int p=0)
{ gsMaterialMatrixIntegrate<real_t,out> e(m,def); Mat r; e.piece(p).eval_into(u,r); return r; }
} // namespace gen
namespace gen {
struct OutDesc { const char*name; enum MaterialOutput id; int rows; };
inline Mat evalOut(int id,gsMaterialMatrixBase<real_t>*m,const gsFunctionSet<real_t>*def,const Mat&z,const Mat&u,int p=0)
{
    switch((MaterialOutput)id)
    {
#define OUT(X) case MaterialOutput::X: return evalZ<MaterialOutput::X>(m,def,z,u,p);
    OUT(Generic) OUT(Density) OUT(VectorN) OUT(VectorM) OUT(CauchyVectorN) OUT(CauchyVectorM) OUT(MatrixA) OUT(MatrixB) OUT(MatrixC) OUT(MatrixD)
    OUT(PStress) OUT(PStressDir) OUT(PStressN) OUT(PStressM) OUT(PCauchyStressN) OUT(PCauchyStressM) OUT(PStrainN) OUT(PStrainM) OUT(Stretch) OUT(StretchDir)
    OUT(TensionField) OUT(Theta) OUT(Gamma) OUT(Strain) OUT(StrainN) OUT(StrainM) OUT(Stress) OUT(StressN) OUT(StressM) OUT(CauchyStressN) OUT(CauchyStressM)
    OUT(Spec2CovTransform) OUT(Spec2ConTransform) OUT(Cov2CartTransform) OUT(Con2CartTransform) OUT(StretchTransform) OUT(PStressTransform) OUT(Thickness) OUT(Parameters) OUT(Deformation)
#undef OUT
    default: break;
    }
    throw std::runtime_error("output");
}
inline Mat evalInt(int id,gsMaterialMatrixBase<real_t>*m,const gsFunctionSet<real_t>*def,const Mat&u,int p=0)
{
    switch((MaterialOutput)id)
    {
#define OUT(X) case MaterialOutput::X: return evalI<MaterialOutput::X>(m,def,u,p);
    OUT(Density) OUT(VectorN) OUT(VectorM) OUT(CauchyVectorN) OUT(CauchyVectorM) OUT(MatrixA) OUT(MatrixB) OUT(MatrixC) OUT(MatrixD) OUT(PStressN) OUT(PStressM)
#undef OUT
    default: break;
    }
    throw std::runtime_error("output");
}
inline std::string outName(int id)
{
#define N(X) if(id==(int)MaterialOutput::X) return #X;
    N(Generic) N(Density) N(VectorN) N(VectorM) N(CauchyVectorN) N(CauchyVectorM) N(MatrixA) N(MatrixB) N(MatrixC) N(MatrixD)
    N(PStress) N(PStressDir) N(PStressN) N(PStressM) N(PCauchyStressN) N(PCauchyStressM) N(PStrainN) N(PStrainM) N(Stretch) N(StretchDir)
    N(TensionField) N(Theta) N(Gamma) N(Strain) N(StrainN) N(StrainM) N(Stress) N(StressN) N(StressM) N(CauchyStressN) N(CauchyStressM)
    N(Spec2CovTransform) N(Spec2ConTransform) N(Cov2CartTransform) N(Con2CartTransform) N(StretchTransform) N(PStressTransform) N(Thickness) N(Parameters) N(Deformation)
#undef N
    return "?";
}
inline std::string cname(const Combo&c,int dim){ static const char*n[]={"SvK","NH","NHext","MR","OG"}; static const char*im[]={"Comp","Ana","Gen","Spec"}; return std::string(n[c.mat])+(c.comp?"c/":"i/")+im[c.impl]+(dim==2?"/2D":"/3D"); }
inline int dimOf(Source&s){ return s.flag(40)?2:3; }
inline Combo combo(Ctx&ctx){ return combos()[ctx.s.draw(combos().size())]; }
// also the linear law
inline Combo anyCombo(Ctx&ctx){ int i=ctx.s.draw(combos().size()+3); if(i<3) return Combo{0,false,1}; return combos()[i-3]; }
} // namespace gen
