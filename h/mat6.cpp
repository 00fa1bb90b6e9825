// M15: geometries given as sums of functions
#include "matgen.h"
#include <gsKLShell/src/gsFunctionSum.h>
using namespace gen;
typedef gsMaterialMatrixBase<real_t>::uPtr MP;
typedef gsFunctionSum<real_t> Sum;
struct Parts { int dim,np,n; std::vector<std::shared_ptr<gsMultiPatch<real_t> > > f; gsMultiPatch<real_t> total; };
// the coefficients of a multi-patch are split at random over n fields on the same bases
static Parts split(Ctx&ctx,const gsMultiPatch<real_t>&def,const gsMultiPatch<real_t>&first,int n)
{
    Parts r; r.dim=def.patch(0).targetDim(); r.np=def.nPatches(); r.n=n; r.total=def; ctx.desc<<" terms="<<n;
    for(int i=0;i<n;i++) r.f.push_back(std::make_shared<gsMultiPatch<real_t> >(def));
    for(int p=0;p<r.np;p++)
    {
        Mat rest=def.patch(p).coefs(); if(n>1){ r.f[0]->patch(p).coefs()=first.patch(p).coefs(); rest-=first.patch(p).coefs(); }
        for(int i=1;i+1<n;i++){ Mat c=rest; double a=ctx.s.sym(1); c*=a; for(int k=0;k<c.size();k++) c.data()[k]+=ctx.s.flag(10)?ctx.s.sym(0.5):0; r.f[i]->patch(p).coefs()=c; rest-=c; }
        r.f[n-1]->patch(p).coefs()=rest;
    }
    return r;
}
static std::vector<const gsFunctionSet<real_t>*> ptrs(const Parts&q){ std::vector<const gsFunctionSet<real_t>*> v; for(auto&f:q.f) v.push_back(f.get()); return v; }
static std::unique_ptr<Sum> make(Ctx&ctx,const Parts&q)
{
    if(q.n==2&&ctx.s.flag()) return std::unique_ptr<Sum>(new Sum(q.f[0].get(),q.f[1].get()));
    std::vector<const gsFunctionSet<real_t>*> v=ptrs(q); return std::unique_ptr<Sum>(new Sum(v));
}
static gsMultiPatch<real_t> patches(Ctx&ctx,int dim,int np,gsMultiPatch<real_t>&mp)
{
    gsMultiPatch<real_t> def; for(int p=0;p<np;p++){ GeoOpt go; go.minDeg=dim==3?2:1; ctx.desc<<" ["<<p<<"]"; mp.addPatch(patch(ctx.s,dim,go)); def.addPatch(mp.patch(p).clone()); DefOpt d; d.stretch=0.3; deform(ctx.s,def.patch(p),dim,d,ctx.desc); }
    return def;
}
PROP(M15,values,600,"sums of 1-4 fields on 1-3 patches: values, first and second derivatives, all derivatives at once, through the set, a piece, a copy of a piece and copies of the sum that outlive it; non-trivial: more than one field")
{
    Source&s=ctx.s; int dim=dimOf(s),np=s.range(1,3),n=s.range(1,4); ctx.nontrivial(n>1); gsMultiPatch<real_t> mp,def=patches(ctx,dim,np,mp); Parts q=split(ctx,def,mp,n); auto S=make(ctx,q);
    int how=s.range(0,3); ctx.desc<<" how="<<how; std::unique_ptr<Sum> C; std::vector<gsFunction<real_t>::uPtr> cl; if(how==1||how==2) C.reset(new Sum(*S)); if(how==3) for(int p=0;p<np;p++) cl.push_back(S->piece(p).clone());
    if(how==2||how==3){ S.reset(); std::vector<char> junk(200+s.draw(2000),0x55); ctx.desc<<" "<<junk.size(); }
    const Sum*U= how==1||how==2? C.get():S.get(); if(U){ ctx.check(U->nPieces()==np&&U->size()==np&&U->domainDim()==2&&U->targetDim()==dim&&U->funcSize()==n,"dimensions"); for(int i=0;i<n;i++) ctx.check(U->func(i)==q.f[i].get(),"terms"); }
    int visits=s.range(1,4); for(int v=0;v<visits;v++)
    {
        int p=s.draw(np); const gsFunction<real_t>&f= how==3? *cl[p] : static_cast<const gsFunction<real_t>&>(U->piece(p)); Mat u=points(s,s.range(1,4)),a,b; const gsGeometry<real_t>&g=q.total.patch(p); double sc=0; for(int i=0;i<n;i++) sc=std::max(sc,q.f[i]->patch(p).coefs().cwiseAbs().maxCoeff()); sc=std::max(sc,1.0);
        ctx.check(f.domainDim()==2&&f.targetDim()==dim,"dimensions of a piece");
        f.eval_into(u,a); g.eval_into(u,b); ctx.closeM(a,b,sc,1e-11,"value of the sum"); f.deriv_into(u,a); g.deriv_into(u,b); ctx.closeM(a,b,sc*20,1e-11,"first derivatives of the sum"); f.deriv2_into(u,a); g.deriv2_into(u,b); ctx.closeM(a,b,sc*400,1e-11,"second derivatives of the sum");
        int ord=s.range(0,2); std::vector<Mat> A,B; f.evalAllDers_into(u,ord,A); g.evalAllDers_into(u,ord,B); ctx.check(A.size()==B.size(),"number of derivatives"); for(size_t i=0;i<A.size();i++) ctx.closeM(A[i],B[i],sc*400,1e-11,"derivatives at once of the sum");
        Mat sup=f.support(),sg=g.support(); ctx.closeM(sup,sg,1,1e-14,"domain of the sum");
        // the result of an earlier call does not leak into the next one
        f.eval_into(u,a); f.eval_into(u,b); ctx.closeM(a,b,sc,0,"evaluated twice");
    }
    if(U){ std::ostringstream o; U->print(o); std::string t=o.str(); int c=0; for(size_t k=0;(k=t.find("Piece ",k))!=std::string::npos;k++) c++; ctx.check(c==np,"printed pieces"); }
    // the terms are referenced, not copied: later changes of a field are seen
    if(U){ int i=s.draw(n),p=s.draw(np); q.f[i]->patch(p).coefs()*=1.5; Mat u=points(s,2),a,b=Mat::Zero(dim,2),t; static_cast<const gsFunction<real_t>&>(U->piece(p)).eval_into(u,a); double sc=1; for(int k=0;k<n;k++){ q.f[k]->patch(p).eval_into(u,t); b+=t; sc=std::max(sc,t.cwiseAbs().maxCoeff()); } ctx.closeM(a,b,sc,1e-11,"changed field"); }
}
PROP(M15,material,500,"a sum of undeformed geometry and displacement given as deformed geometry of a material (pointwise, integrated, several patches) against the spline with the summed coefficients; also as undeformed geometry; non-trivial: strain > 1e-6")
{
    Source&s=ctx.s; int dim=dimOf(s); Combo c=anyCombo(ctx); Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.25,0.05,3,2); ctx.nontrivial(maxStrain(sc)>1e-6); ctx.label(cname(c,dim)); int n=s.range(1,4); Parts q=split(ctx,sc.def,sc.mp,n); auto S=make(ctx,q); MP m=sc.m.make(sc.mp),r=sc.m.make(sc.mp);
    static const MaterialOutput zo[]={MaterialOutput::Stress,MaterialOutput::MatrixA,MaterialOutput::Strain,MaterialOutput::Stretch,MaterialOutput::PStress,MaterialOutput::CauchyStressN}; static const MaterialOutput io[]={MaterialOutput::VectorN,MaterialOutput::VectorM,MaterialOutput::MatrixA,MaterialOutput::MatrixD};
    auto scl=[&](const Mat&a){ return std::max(1e-4*sc.m.E.c0,a.size()?a.cwiseAbs().maxCoeff():0.0); };
    { int id=(int)zo[s.draw(6)]; ctx.desc<<" "<<outName(id); Mat a=evalOut(id,m.get(),S.get(),sc.z,sc.u),b=evalOut(id,r.get(),&sc.def,sc.z,sc.u); ctx.closeM(a,b,scl(b),1e-7,"deformed by a sum: "+outName(id)+" "+cname(c,dim)); }
    { int id=(int)io[s.draw(4)]; ctx.desc<<" "<<outName(id); Mat a=evalInt(id,m.get(),S.get(),sc.u),b=evalInt(id,r.get(),&sc.def,sc.u); ctx.closeM(a,b,scl(b)*sc.m.t.c0,1e-7,"deformed by a sum, integrated: "+outName(id)+" "+cname(c,dim)); }
    { Parts w=split(ctx,sc.mp,sc.def,s.range(1,3)); auto W=make(ctx,w); m->setUndeformed(W.get()); m->setDeformed(S.get()); r->setUndeformed(&sc.mp); r->setDeformed(&sc.def); Mat a=m->eval3D_stress(0,sc.u,sc.z,MaterialOutput::VectorN),b=r->eval3D_stress(0,sc.u,sc.z,MaterialOutput::VectorN); ctx.closeM(a,b,scl(b),1e-6,"undeformed sum: stress "+cname(c,dim)); }
}
