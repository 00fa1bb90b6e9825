// M12: dispatch of materials and geometries over patches; M13: construction, setters and file round trips
#include "matgen.h"
#include <gsIO/gsFileData.h>
#include <unistd.h>
#include <cstdlib>
#include <fstream>
using namespace gen;
typedef gsMaterialMatrixBase<real_t>::uPtr MP;
static MP tft(int dim,bool linear,gsMaterialMatrixBase<real_t>&m)
{
    if(dim==3) return linear? MP(new gsMaterialMatrixTFT<3,real_t,true>(m)) : MP(new gsMaterialMatrixTFT<3,real_t,false>(m));
    return linear? MP(new gsMaterialMatrixTFT<2,real_t,true>(m)) : MP(new gsMaterialMatrixTFT<2,real_t,false>(m));
}
static double scaleOf(const Mat&a,double fl){ double s=fl; for(int i=0;i<a.size();i++){ double v=std::abs(a.data()[i]); if(v==v&&v>s) s=v; } return s; }
static const MaterialOutput ZO[]={MaterialOutput::Generic,MaterialOutput::Density,MaterialOutput::VectorN,MaterialOutput::MatrixA,MaterialOutput::Stretch,MaterialOutput::PStress,MaterialOutput::Stress,MaterialOutput::Strain,MaterialOutput::CauchyStressN,MaterialOutput::TensionField,MaterialOutput::Thickness,MaterialOutput::Parameters,MaterialOutput::Deformation,MaterialOutput::VectorM,MaterialOutput::PStressM,MaterialOutput::PStrainN,MaterialOutput::PStressDir,MaterialOutput::StretchDir,MaterialOutput::PCauchyStressN};
static const MaterialOutput IO[]={MaterialOutput::Density,MaterialOutput::VectorN,MaterialOutput::VectorM,MaterialOutput::CauchyVectorN,MaterialOutput::CauchyVectorM,MaterialOutput::MatrixA,MaterialOutput::MatrixB,MaterialOutput::MatrixC,MaterialOutput::MatrixD};

// evaluators of an output, over a container or a single material, with or without an undeformed geometry
struct Ev { std::shared_ptr<gsFunctionSet<real_t> > f; int dim(int p)const{ return f->piece(p).targetDim(); } Mat at(int p,const Mat&u)const{ Mat r; static_cast<const gsFunction<real_t>&>(f->piece(p)).eval_into(u,r); return r; } };
template<enum MaterialOutput o> static Ev mkZ(const gsMaterialMatrixContainer<real_t>*c,gsMaterialMatrixBase<real_t>*m,MP*up,const gsFunctionSet<real_t>*und,const gsFunctionSet<real_t>*def,const Mat&z)
{
    Ev e; typedef gsMaterialMatrixEval<real_t,o> T;
    if(c) e.f.reset(und? new T(*c,und,def,z):new T(*c,def,z)); else if(up) e.f.reset(und? new T(*up,und,def,z):new T(*up,def,z)); else e.f.reset(und? new T(m,und,def,z):new T(m,def,z));
    return e;
}
template<enum MaterialOutput o> static Ev mkI(const gsMaterialMatrixContainer<real_t>*c,gsMaterialMatrixBase<real_t>*m,MP*up,const gsFunctionSet<real_t>*und,const gsFunctionSet<real_t>*def)
{
    Ev e; typedef gsMaterialMatrixIntegrate<real_t,o> T;
    if(c) e.f.reset(und? new T(*c,und,def):new T(*c,def)); else if(up) e.f.reset(und? new T(*up,und,def):new T(*up,def)); else e.f.reset(und? new T(m,und,def):new T(m,def));
    return e;
}
static Ev makeEv(bool in,int id,const gsMaterialMatrixContainer<real_t>*c,gsMaterialMatrixBase<real_t>*m,MP*up,const gsFunctionSet<real_t>*und,const gsFunctionSet<real_t>*def,const Mat&z)
{
    if(in) switch((MaterialOutput)id){
#define O(X) case MaterialOutput::X: return mkI<MaterialOutput::X>(c,m,up,und,def);
    O(Density) O(VectorN) O(VectorM) O(CauchyVectorN) O(CauchyVectorM) O(MatrixA) O(MatrixB) O(MatrixC) O(MatrixD) default: break;
#undef O
    } else switch((MaterialOutput)id){
#define O(X) case MaterialOutput::X: return mkZ<MaterialOutput::X>(c,m,up,und,def,z);
    O(Generic) O(Density) O(VectorN) O(MatrixA) O(Stretch) O(PStress) O(Stress) O(Strain) O(CauchyStressN) O(TensionField) O(Thickness) O(Parameters) O(Deformation) O(VectorM) O(PStressM) O(PStrainN) O(PStressDir) O(StretchDir) O(PCauchyStressN) default: break;
#undef O
    }
    throw std::runtime_error("output");
}
struct MPatch { int dim; std::vector<Scene> sc; gsMultiPatch<real_t> mp,def; std::vector<char> wrap; };
// np patches, each with its own geometry, deformation and points
static MPatch many(Ctx&ctx,int np,bool sameMat)
{
    MPatch r; r.dim=dimOf(ctx.s); Combo c0=anyCombo(ctx);
    for(int p=0;p<np;p++)
    {
        Combo c= sameMat? c0 : anyCombo(ctx); ctx.desc<<" ["<<p<<"]"; Scene s=scene(ctx,r.dim,c.mat,c.comp,c.impl,0.25,0.05,3,2);
        r.mp.addPatch(s.mp.patch(0).clone()); r.def.addPatch(s.def.patch(0).clone()); r.wrap.push_back(!sameMat&&ctx.s.flag(15)); r.sc.push_back(s);
    }
    return r;
}
static Mat reference(bool in,int id,const Scene&s,bool wrap,const Mat&z)
{   // fresh single-patch material; in 3D the wrinkling material is used on the mid-surface only
    MP m=s.m.make(s.mp); MP t; if(wrap) t=tft(s.dim,s.m.mat==0,*m); auto*q=wrap?t.get():m.get();
    return in? evalInt(id,q,&s.def,s.u) : evalOut(id,q,&s.def,z,s.u);
}
PROP(M12,container,700,"2-4 unrelated patches with different laws, thicknesses, parameters; container filled by copies, pointers and shared pointers in any order, pieces visited in any order; every way to build an evaluator or integrator; non-trivial: at least two patches with different materials")
{
    Source&s=ctx.s; int np=s.range(2,4); MPatch M=many(ctx,np,false); bool in=s.flag(40); int id= in? (int)IO[s.draw(sizeof(IO)/sizeof(*IO))] : (int)ZO[s.draw(sizeof(ZO)/sizeof(*ZO))]; ctx.desc<<" out="<<outName(id)<<(in?"/int":"");
    ctx.nontrivial(); Mat z(s.range(1,2),1); for(int j=0;j<z.rows();j++) z(j,0)=s.real(-0.5,0.5,0.0); for(int p=0;p<np;p++) if(M.wrap[p]&&M.dim==3) z.setZero();
    bool und=s.flag(); gsMultiPatch<real_t> other; if(und) for(int p=0;p<np;p++){ other.addPatch(M.mp.patch(p).clone()); other.patch(p).coefs()*=1.5; }
    const gsMultiPatch<real_t>&base= und&&s.flag(70)? other : M.mp;   // what the materials were built with
    std::vector<MP> keep; gsMaterialMatrixContainer<real_t> c; bool sized=s.flag(); if(sized) c=gsMaterialMatrixContainer<real_t>(np);
    std::vector<int> order(np); for(int i=0;i<np;i++)order[i]=i; if(sized) for(int i=np-1;i>0;i--) std::swap(order[i],order[s.draw(i+1)]);
    for(int i=0;i<np;i++)
    {
        int p=order[i]; MP m=M.sc[p].m.make(base); if(M.wrap[p]){ MP t=tft(M.dim,M.sc[p].m.mat==0,*m); keep.push_back(std::move(m)); m=std::move(t); }
        int how=s.range(0,2); if(sized){ if(how==0) c.set(p,*m); else if(how==1) c.set(p,m.get()); else c.set(p,gsMaterialMatrixBase<real_t>::Ptr(m.release())); } else { if(how==0) c.add(*m); else c.add(m.get()); }
        if(m) keep.push_back(std::move(m));
    }
    ctx.check(c.size()==np,"size of the container");
    gsMaterialMatrixContainer<real_t> c2=c; const auto&cc= s.flag(30)? c2:c;
    Ev e=makeEv(in,id,&cc,nullptr,nullptr,und?&M.mp:nullptr,&M.def,z);
    int visits=s.range(1,4); for(int v=0;v<visits;v++)
    {
        int p=s.draw(np); const Scene&sc=M.sc[p]; if(M.wrap[p]&&(in?id==(int)MaterialOutput::CauchyVectorN||id==(int)MaterialOutput::CauchyVectorM:id==(int)MaterialOutput::PStressDir)) continue; Mat A=e.at(p,sc.u),B=reference(in,id,sc,M.wrap[p],z); std::string site=outName(id)+(in?" integrated":"")+(M.wrap[p]?" tension field":"");
        ctx.check(A.rows()==B.rows()&&A.cols()==B.cols()&&e.dim(p)==B.rows(),"shape of "+site); for(int i=0;i<A.size();i++) if(A.data()[i]!=A.data()[i]&&B.data()[i]!=B.data()[i]) A.data()[i]=B.data()[i]=0;
        ctx.closeM(A,B,scaleOf(B,1e-3*sc.m.E.c0*(in?sc.m.t.c0:1)),1e-8,site);
    }
}
PROP(M12,piecewise,500,"one material on 1-4 unrelated patches with thickness, density and parameters given per patch; every way to build an evaluator or integrator from one material; non-trivial: at least two patches")
{
    Source&s=ctx.s; int np=s.range(1,4); MPatch M=many(ctx,np,true); ctx.nontrivial(np>1); bool in=s.flag(40); int id= in? (int)IO[s.draw(sizeof(IO)/sizeof(*IO))] : (int)ZO[s.draw(sizeof(ZO)/sizeof(*ZO))]; ctx.desc<<" out="<<outName(id)<<(in?"/int":"");
    Mat z(s.range(1,2),1); for(int j=0;j<z.rows();j++) z(j,0)=s.real(-0.5,0.5,0.0);
    MatSpec m=M.sc[0].m; size_t nog=m.mu.size(); auto pw=[&](std::function<Field&(MatSpec&)> g){ gsPiecewiseFunction<real_t>*f=new gsPiecewiseFunction<real_t>; for(int p=0;p<np;p++) f->addPiece(static_cast<gsFunction<real_t>&>(*g(M.sc[p].m).fn)); return std::shared_ptr<gsFunctionSet<real_t> >(f); };
    bool pt=s.flag(70),pr=s.flag(70),pe=s.flag(70),pn=s.flag(70);
    m.t.fn= pt? pw([](MatSpec&q)->Field&{return q.t;}) : m.t.fn; m.rho.fn= pr? pw([](MatSpec&q)->Field&{return q.rho;}) : m.rho.fn; m.E.fn= pe? pw([](MatSpec&q)->Field&{return q.E;}) : m.E.fn; m.nu.fn= pn? pw([](MatSpec&q)->Field&{return q.nu;}) : m.nu.fn;
    std::vector<Scene> R=M.sc; for(int p=1;p<np;p++){ MatSpec&q=R[p].m; if(!pt) q.t=M.sc[0].m.t; if(!pr) q.rho=M.sc[0].m.rho; if(!pe) q.E=M.sc[0].m.E; if(!pn) q.nu=M.sc[0].m.nu; q.ratio=M.sc[0].m.ratio; q.mu=M.sc[0].m.mu; q.al=M.sc[0].m.al; }
    for(auto&q:R) ctx.require(admissible(q,0.4,2.8));
    if(m.mat==4) for(auto&q:R) ctx.require(nog==q.m.mu.size());
    bool und=s.flag(); gsMultiPatch<real_t> other; for(int p=0;p<np;p++){ other.addPatch(M.mp.patch(p).clone()); other.patch(p).coefs()*=1.5; }
    MP mm=m.make(und&&s.flag(70)?other:M.mp); bool up=s.flag();
    Ev e=makeEv(in,id,nullptr,mm.get(),up?&mm:nullptr,und?&M.mp:nullptr,&M.def,z);
    int visits=s.range(1,4); for(int v=0;v<visits;v++){ int p=s.draw(np); Mat A=e.at(p,R[p].u),B=reference(in,id,R[p],false,z); ctx.closeM(A,B,scaleOf(B,1e-3*R[p].m.E.c0*(in?R[p].m.t.c0:1)),1e-8,outName(id)+(in?" integrated":"")); }
}
PROP(M12,evaluators,400,"2-4 evaluators and integrators alive at once on one material (also a tension-field material), each with its own pair of geometries, used in any order; an evaluator does not see the geometries of the others; non-trivial: two evaluators used alternately")
{
    Source&s=ctx.s; int n=s.range(2,4); MPatch M=many(ctx,n,true); std::vector<Scene> R=M.sc; for(int i=1;i<n;i++){ size_t k=R[i].m.mu.size(); R[i].m=R[0].m; ctx.require(R[0].m.mat!=4||k==R[i].m.mu.size()); }
    for(auto&q:R) ctx.require(admissible(q,0.4,2.8));
    bool wrap=s.flag(20); MP mm=R[0].m.make(R[0].mp),t; if(wrap) t=tft(M.dim,R[0].m.mat==0,*mm); auto*q=wrap?t.get():mm.get();
    Mat z(s.range(1,2),1); for(int j=0;j<z.rows();j++) z(j,0)=s.real(-0.5,0.5,0.0); if(wrap&&M.dim==3) z.setZero();
    bool sameUnd=s.flag(40); if(sameUnd) for(int i=1;i<n;i++) R[i].mp=R[0].mp; if(sameUnd) for(int i=1;i<n;i++) R[i].def=R[0].def, R[i].def.patch(0).coefs()*=1+0.04*i;
    if(sameUnd) for(auto&r:R){ r.surfaces(); ctx.require(admissible(r,0.4,2.8)); }
    std::vector<Ev> e; std::vector<std::pair<bool,int> > o; for(int i=0;i<n;i++){ bool in=s.flag(40); int id= in? (int)IO[s.draw(sizeof(IO)/sizeof(*IO))] : (int)ZO[s.draw(sizeof(ZO)/sizeof(*ZO))]; if(wrap&&in&&(id==(int)MaterialOutput::CauchyVectorN||id==(int)MaterialOutput::CauchyVectorM)) id=(int)MaterialOutput::VectorN; if(wrap&&!in&&id==(int)MaterialOutput::PStressDir) id=(int)MaterialOutput::PStress; ctx.desc<<" out="<<outName(id)<<(in?"/int":""); o.push_back(std::make_pair(in,id)); e.push_back(makeEv(in,id,nullptr,q,nullptr,sameUnd&&s.flag()?nullptr:&R[i].mp,&R[i].def,z)); }
    int visits=s.range(2,6),last=-1; for(int v=0;v<visits;v++)
    {
        int i=s.draw(n); if(last>=0&&i!=last) ctx.nontrivial(); last=i; Mat A=e[i].at(0,R[i].u),B=reference(o[i].first,o[i].second,R[i],wrap,z); std::string site="interleaved "+outName(o[i].second)+(o[i].first?" integrated":"")+(wrap?" tension field":"");
        ctx.check(A.rows()==B.rows()&&A.cols()==B.cols(),"shape of "+site); for(int k=0;k<A.size();k++) if(A.data()[k]!=A.data()[k]&&B.data()[k]!=B.data()[k]) A.data()[k]=B.data()[k]=0;
        ctx.closeM(A,B,scaleOf(B,1e-3*R[i].m.E.c0*(o[i].first?R[i].m.t.c0:1)),1e-8,site);
    }
}
PROP(M12,history,500,"a container edited by add, set, clear and copy against a list of what it should hold; non-trivial: an overwrite or a clear")
{
    Source&s=ctx.s; int dim=3; gsMultiPatch<real_t> mp; mp.addPatch(cartesian(dim)); Mat u(2,1); u<<0.3,0.6; std::vector<std::shared_ptr<gsFunctionSet<real_t> > > hold; std::vector<std::shared_ptr<gsMaterialMatrixBase<real_t> > > keep; std::vector<double> model; int n0=s.range(0,3); gsMaterialMatrixContainer<real_t> c(n0); std::vector<std::pair<gsMaterialMatrixContainer<real_t>,std::vector<double> > > copies; model.assign(n0,-1);
    int ops=s.range(1,10); for(int k=0;k<ops;k++)
    {
        double tv=0.01*(k+1); Field t,E,nu; t.dim=E.dim=nu.dim=dim; t.c0=tv; t.make(); E.c0=1;E.make();nu.c0=0.3;nu.make(); MatSpec m; m.dim=dim; m.t=t; m.E=E; m.nu=nu; m.rho=E;
        hold.push_back(t.fn); hold.push_back(E.fn); hold.push_back(nu.fn);
        std::shared_ptr<gsMaterialMatrixBase<real_t> > p(m.make(mp).release()); keep.push_back(p); int op=s.range(0,6); ctx.desc<<" "<<op;
        if(op==0){ c.add(*p); model.push_back(tv); } else if(op==1){ c.add(p.get()); model.push_back(tv); }
        else if(op<=4){ if(model.empty()) continue; int i=s.draw(model.size()); ctx.nontrivial(model[i]>0); if(op==2) c.set(i,*p); else if(op==3) c.set(i,p.get()); else c.set(i,gsMaterialMatrixBase<real_t>::Ptr(m.make(mp).release())); model[i]=tv; }
        else if(op==5){ if(s.flag(20)){ c.clear(); model.clear(); ctx.nontrivial(); } } else copies.push_back(std::make_pair(c,model));
    }
    copies.push_back(std::make_pair(c,model));
    for(auto&q:copies){ ctx.check(q.first.size()==(int)q.second.size(),"size"); for(size_t i=0;i<q.second.size();i++) { auto*m=q.first.piece(i); if(q.second[i]<0){ ctx.check(m==nullptr,"unset entries are empty"); continue; } ctx.check(m!=nullptr,"entry set"); Mat t; m->thickness_into(0,u,t); ctx.close(t(0,0),q.second[i],1,1e-14,"entry of the container"); } }
}

// ------------------------------------------------------------------------------------------ M13
static Field exprF(const Field&f,bool keepConst=false){ Field g=f; if(f.constant()&&keepConst){ char b[40]; snprintf(b,40,"%.5f",g.c0); g.c0=atof(b); g.make(); return g; } /* the core writes constants with six decimals */ std::string e=num(g.c0)+"+("+num(g.c[0])+")*x+("+num(g.c[1])+")*y"; if(g.dim==3) e+="+("+num(g.c[2])+")*z"; g.fn.reset(new gsFunctionExpr<real_t>(e,g.dim)); return g; }
static void allExpr(MatSpec&m,bool k=false){ m.t=exprF(m.t,k); m.rho=exprF(m.rho,k); m.E=exprF(m.E,k); m.nu=exprF(m.nu,k); if(m.mat==3) m.ratio=exprF(m.ratio,k); for(auto&f:m.mu) f=exprF(f,k); for(auto&f:m.al) f=exprF(f,k); }
struct Tmp { std::string d; Tmp(){ const char*t=getenv("VERIF_TMP"); std::string b=std::string(t?t:"/tmp")+"/vxmlXXXXXX"; b.push_back(0); d=mkdtemp(&b[0]); } ~Tmp(){ std::string f=d+"/m.xml"; unlink(f.c_str()); rmdir(d.c_str()); } };
static void same(Ctx&ctx,gsMaterialMatrixBase<real_t>*a,gsMaterialMatrixBase<real_t>*b,const Scene&sc,const Mat&z,bool rho,const std::string&site,bool tf=false)
{
    for(int id:{(int)MaterialOutput::MatrixA,(int)MaterialOutput::VectorN,(int)MaterialOutput::VectorM,(int)MaterialOutput::MatrixD,(int)MaterialOutput::Density})
    { if(!rho&&id==(int)MaterialOutput::Density) continue; Mat x=evalInt(id,a,&sc.def,sc.u),y=evalInt(id,b,&sc.def,sc.u); ctx.closeM(x,y,scaleOf(y,1e-6*sc.m.E.c0),1e-9,site+" "+outName(id)); }
    for(int id:{(int)MaterialOutput::Stress,(int)MaterialOutput::Thickness,(int)MaterialOutput::Parameters,(int)MaterialOutput::TensionField}){ Mat x=evalOut(id,a,&sc.def,z,sc.u),y=evalOut(id,b,&sc.def,z,sc.u); ctx.closeM(x,y,scaleOf(y,1e-6),1e-9,site+" "+outName(id)); }
}
// the classes that can be stored
static Combo xmlCombo(Ctx&ctx){ static const Combo c[]={{0,false,1},{1,false,1},{1,true,1},{2,true,1},{3,false,1},{3,true,1},{4,false,3},{4,true,3}}; return c[ctx.s.draw(8)]; }
static std::string xmlName(const Combo&c,int dim){ static const char*n[]={"Linear","NH","NHe","MR","OG"}; return (c.mat==0?"":c.comp?"Compressible":"Incompressible")+std::string(n[c.mat])+(dim==2?"2":"3"); }
PROP(M13,roundtrip,400,"materials of every storable class, optionally as tension-field material, written to a file and read back behave as before; without density too; non-trivial: a field that varies in space")
{
    Source&s=ctx.s; int dim=dimOf(s); Combo c=xmlCombo(ctx); Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.15,0.05,3,2); allExpr(sc.m,s.flag()); ctx.nontrivial(!sc.m.t.constant()||!sc.m.E.constant()||!sc.m.rho.constant()||!sc.m.nu.constant()); bool rho=s.flag(70),tf=s.flag(25); ctx.label(xmlName(c,dim)+(tf?"/TFT":""));
    MP m= rho? sc.m.make(sc.mp) : sc.m.makeNoRho(sc.mp); MP t; if(tf) t=tft(dim,c.mat==0,*m); auto*orig=tf?t.get():m.get();
    Mat z=sc.z.col(0); if(tf) z.setZero();
    Tmp tmp; int id=s.range(0,50); bool useId=s.flag(); { gsFileData<real_t> fd; if(useId) fd.addWithLabel(*orig,"mat"); else fd.add(*orig); (void)id; fd.save(tmp.d+"/m.xml"); }
    gsFileData<real_t> in(tmp.d+"/m.xml"); ctx.check(in.template has<gsMaterialMatrixBase<real_t> >(),"file holds a material");
    MP back= useId? in.template getLabel<gsMaterialMatrixBase<real_t> >("mat") : in.template getFirst<gsMaterialMatrixBase<real_t> >(); ctx.check(back.get()!=nullptr,"material read back");
    ctx.check(back->initialized(),"read material is complete"); ctx.check(back->hasDensity()==rho || tf,"density present"); back->setUndeformed(&sc.mp);
    { std::ostringstream a,b; a<<*orig; b<<*back; ctx.check(a.str()==b.str(),"kind of material"); }
    ctx.check(back->material()->numParameters()==m->numParameters(),"number of parameters");
    same(ctx,back.get(),orig,sc,z,rho,"read back "+xmlName(c,dim)+(tf?" tension field":""));
}
PROP(M13,reader,300,"hand-written files: materials with the fields in any order, and containers with several materials assigned to groups of patches; non-trivial: more than one material")
{
    Source&s=ctx.s; int dim=dimOf(s); int nm=s.range(1,3),np=s.range(nm,5); ctx.nontrivial(nm>1); std::vector<Scene> sc; std::vector<Combo> cs; std::vector<bool> rho;
    for(int i=0;i<nm;i++){ Combo c=xmlCombo(ctx); Scene q=scene(ctx,dim,c.mat,c.comp,c.impl,0.15,0.05,2,1); allExpr(q.m); sc.push_back(q); cs.push_back(c); rho.push_back(s.flag(70)); }
    auto fx=[&](const Field&f,int idx){ std::ostringstream o; o<<"<Function type=\"FunctionExpr\" dim=\""<<dim<<"\" index=\""<<idx<<"\">"<<static_cast<gsFunctionExpr<real_t>&>(*f.fn).expression()<<"</Function>"; return o.str(); };
    auto body=[&](int i){ MatSpec&m=sc[i].m; std::vector<const Field*> ps; ps.push_back(&m.E); ps.push_back(&m.nu); if(m.mat==3) ps.push_back(&m.ratio); for(size_t k=0;k<m.mu.size();k++){ ps.push_back(&m.mu[k]); ps.push_back(&m.al[k]); } std::vector<int> o(ps.size()); for(size_t k=0;k<o.size();k++)o[k]=k; for(int k=o.size()-1;k>0;k--) std::swap(o[k],o[s.draw(k+1)]);
        std::string T="<Thickness>"+fx(m.t,0)+"</Thickness>",D=rho[i]?"<Density>"+fx(m.rho,0)+"</Density>":"",P="<Parameters>"; for(int k:o) P+=fx(*ps[k],k); P+="</Parameters>"; int w=s.range(0,2); return w==0?T+D+P: w==1?P+T+D : D+P+T; };
    std::vector<int> as(np); for(int p=0;p<np;p++) as[p]=p<nm?p:s.draw(nm); for(int p=np-1;p>0;p--) std::swap(as[p],as[s.draw(p+1)]);
    std::ostringstream f; f<<"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<xml>\n<MaterialMatrixContainer size=\""<<np<<"\" id=\"7\">\n"; std::vector<int> o(nm); for(int i=0;i<nm;i++)o[i]=i; for(int i=nm-1;i>0;i--) std::swap(o[i],o[s.draw(i+1)]);
    for(int i:o) f<<"<MaterialMatrix type=\""<<xmlName(cs[i],dim)<<"\" index=\""<<i<<"\">"<<body(i)<<"</MaterialMatrix>\n";
    for(int i=0;i<nm;i++){ f<<"<group material=\""<<i<<"\">"; for(int p=0;p<np;p++) if(as[p]==i) f<<" "<<p; f<<"</group>\n"; } f<<"</MaterialMatrixContainer>\n</xml>\n";
    Tmp tmp; { std::ofstream os(tmp.d+"/m.xml"); os<<f.str(); }
    gsFileData<real_t> in(tmp.d+"/m.xml"); gsMaterialMatrixContainer<real_t> c; in.getFirst(c); ctx.check(c.size()==np,"size of the container");
    int p=s.draw(np); Scene&q=sc[as[p]]; ctx.check(c.piece(p)!=nullptr,"entry of the container"); c.piece(p)->setUndeformed(&q.mp); MP r=rho[as[p]]?q.m.make(q.mp):q.m.makeNoRho(q.mp); ctx.check(c.piece(p)->hasDensity()==rho[as[p]],"density"); same(ctx,c.piece(p),r.get(),q,q.z,rho[as[p]],"container from file");
}
template<int d> static MP direct(const Scene&sc,const Combo&c,int how,bool rho)
{
    const MatSpec&m=sc.m; typedef std::vector<gsFunctionSet<real_t>*> PV; PV p=m.pars();
#define CTOR(T) { if(how==0) return rho? MP(new T(sc.mp,*m.t.fn,p,*m.rho.fn)):MP(new T(sc.mp,*m.t.fn,p)); if(how==1){ MP r= rho? MP(new T(*m.t.fn,p,*m.rho.fn)):MP(new T(*m.t.fn,p)); r->setUndeformed(&sc.mp); return r; } \
      MP r; if(how==2){ r=MP(new T(sc.mp,*m.t.fn)); } else { r=MP(new T()); r->setUndeformed(&sc.mp); r->setThickness(*m.t.fn); } if(rho) r->setDensity(*m.rho.fn); return r; }
    if(c.mat==0){ typedef gsMaterialMatrixLinear<d,real_t> T; if(how==5) return rho? MP(new T(sc.mp,*m.t.fn,*m.E.fn,*m.nu.fn,*m.rho.fn)):MP(new T(sc.mp,*m.t.fn,*m.E.fn,*m.nu.fn)); CTOR(T) }
    int key=10*c.impl+c.mat;
#define NL(K,B) if(key==K&&c.comp==B){ typedef gsMaterialMatrixNonlinear<d,real_t,K,B> T; CTOR(T) }
    NL(11,false) NL(11,true) NL(21,false) NL(21,true) NL(31,false) NL(31,true) NL(12,true) NL(22,true) NL(32,true) NL(13,false) NL(13,true) NL(23,false) NL(23,true) NL(33,false) NL(33,true) NL(34,false) NL(34,true)
    throw std::runtime_error("combo");
}
PROP(M13,construct,600,"every law and implementation: all constructors, the factory, and setting thickness, density and parameters one by one in any order (also overwriting earlier values) give the same material; getters return what was set; non-trivial: built by setters or without geometry")
{
    Source&s=ctx.s; int dim=dimOf(s); Combo c=anyCombo(ctx); Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.2,0.05,3,1); const MatSpec&m=sc.m; bool rho=s.flag(60); int how=s.range(0,c.mat==0?5:4); ctx.nontrivial(how>0); ctx.desc<<" how="<<how; ctx.label(cname(c,dim)); std::string nm=" "+cname(c,dim)+" ctor "+std::to_string(how);
    MP r= dim==2? direct<2>(sc,c,how,rho) : direct<3>(sc,c,how,rho);
    auto pv=m.pars();
    if(how>=2&&how<5)
    {   // parameters by setters
        std::vector<int> o(pv.size()); for(size_t k=0;k<o.size();k++)o[k]=k; if(s.flag()) for(int k=o.size()-1;k>0;k--) std::swap(o[k],o[s.draw(k+1)]);
        bool twice=s.flag(40); int named=s.range(0,2); if(twice){ Field f; f.dim=dim; f.c0=0.123; f.make(); r->setParameter(o[0],*f.fn); }
        if(named==2&&s.flag()) r->setParameters(pv); else for(int k:o)
        {
            if(named==0) r->setParameter(k,*pv[k]);
            else if(named==1){ if(k==0) r->setYoungsModulus(*pv[0]); else if(k==1) r->setPoissonsRatio(*pv[1]); else if(c.mat==3) r->setRatio(*pv[2]); else if(k%2==0) r->setMu((k-2)/2,*pv[k]); else r->setAlpha((k-3)/2,*pv[k]); }
            else r->setParameter(k,gsFunctionSet<real_t>::Ptr(pv[k]->clone().release()));
        }
    }
    ctx.check(r->initialized(),"complete"+nm); ctx.check(r->hasThickness()&&r->hasDensity()==rho&&r->hasUndeformed()&&!r->hasDeformed(),"state flags"+nm); ctx.check(r->numParameters()==(int)pv.size(),"number of parameters"+nm);
    Mat x(dim,1); for(int i=0;i<dim;i++)x(i,0)=sc.so[0].x[i]; auto val=[&](const gsFunctionSet<real_t>::Ptr&f){ Mat y; static_cast<const gsFunction<real_t>&>(f->piece(0)).eval_into(x,y); return y(0,0); };
    ctx.close(val(r->getYoungsModulus()),m.E(sc.so[0].x),m.E.c0,1e-12,"modulus"+nm); ctx.close(val(r->getPoissonsRatio()),m.nu(sc.so[0].x),1,1e-12,"Poisson ratio"+nm); ctx.close(val(r->getThickness()),m.t(sc.so[0].x),m.t.c0,1e-12,"thickness"+nm); if(c.mat==3) ctx.close(val(r->getRatio()),m.ratio(sc.so[0].x),m.ratio.c0,1e-12,"ratio"+nm);
    for(size_t i=0;i<m.mu.size();i++){ ctx.close(val(r->getMu(i)),m.mu[i].c0,std::abs(m.mu[i].c0),1e-12,"mu"+nm); ctx.close(val(r->getAlpha(i)),m.al[i].c0,std::abs(m.al[i].c0),1e-12,"alpha"+nm); }
    if(rho) ctx.close(val(r->getDensity()),m.rho(sc.so[0].x),m.rho.c0,1e-12,"density"+nm);
    MP f= rho? m.make(sc.mp):m.makeNoRho(sc.mp); same(ctx,r.get(),f.get(),sc,sc.z,rho,"constructed"+nm);
    // later changes are seen
    { Field t2=m.t; t2.c0*=2; for(double&q:t2.c)q*=2; t2.make(); r->setThickness(*t2.fn); Mat a; r->thickness_into(0,sc.u,a); for(int k=0;k<sc.n();k++) ctx.close(a(0,k),2*m.t(sc.so[k].x),m.t.c0,1e-12,"new thickness"+nm); }
}

// the same law with other values
static MatSpec otherValues(Source&s,const MatSpec&m){ MatSpec r=m; double a=s.real(0.5,2,2.0),b=s.real(0.5,2,0.5),c=s.real(0.5,2,1.5); auto f=[](Field&q,double x){ q.c0*=x; for(double&y:q.c) y*=x; q.make(); }; f(r.t,a); f(r.E,b); f(r.rho,c); if(r.mat==3) f(r.ratio,b); for(auto&q:r.mu) f(q,c); return r; }
PROP(M13,wrapped,300,"thickness, density and parameters changed on a tension-field material, one by one or together, by reference or shared pointer: it answers as a tension-field material built with the new values; getters return what was set; non-trivial: a changed parameter")
{
    Source&s=ctx.s; int dim=dimOf(s); Combo c=anyCombo(ctx); Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.15,0.05,3,1); MatSpec m2=otherValues(s,sc.m); Scene sd=sc; sd.m=m2; ctx.require(admissible(sd,0.4,2.8)); ctx.nontrivial(); ctx.label(cname(c,dim));
    MP b=sc.m.make(sc.mp),t=tft(dim,c.mat==0,*b),b2=m2.make(sc.mp),t2=tft(dim,c.mat==0,*b2); auto pv=m2.pars(); Mat z=sc.z.col(0); z.setZero(); bool warm=s.flag(); if(warm) evalInt((int)MaterialOutput::VectorN,t.get(),&sc.def,sc.u);
    typedef gsFunctionSet<real_t>::Ptr FP; auto sp=[&](gsFunctionSet<real_t>*f){ return FP(f->clone().release()); };
    int how=s.range(0,3); ctx.desc<<" how="<<how; if(how%2==0){ t->setThickness(*m2.t.fn); t->setDensity(*m2.rho.fn); } else { t->setThickness(sp(m2.t.fn.get())); t->setDensity(sp(m2.rho.fn.get())); }
    if(how==0) for(size_t k=0;k<pv.size();k++) t->setParameter(k,*pv[k]); else if(how==1) for(size_t k=0;k<pv.size();k++) t->setParameter(k,sp(pv[k])); else if(how==2) t->setParameters(pv); else { std::vector<FP> v; for(auto*q:pv) v.push_back(sp(q)); t->setParameters(v); }
    std::string nm=" tension field "+cname(c,dim); Mat a,q; t->thickness_into(0,sc.u,a); t->density_into(0,sc.u,q); for(int k=0;k<sc.n();k++){ ctx.close(a(0,k),m2.t(sc.so[k].x),m2.t.c0,1e-12,"new thickness"+nm); }
    t2->density_into(0,sc.u,a); ctx.closeM(q,a,scaleOf(a,1e-9),1e-12,"new density"+nm); ctx.check(t->hasThickness()&&t->hasDensity()&&t->numParameters()==(int)pv.size(),"state flags"+nm);
    Mat x(dim,1); for(int i=0;i<dim;i++)x(i,0)=sc.so[0].x[i]; auto val=[&](const FP&f){ Mat y; static_cast<const gsFunction<real_t>&>(f->piece(0)).eval_into(x,y); return y(0,0); };
    ctx.close(val(t->getThickness()),m2.t(sc.so[0].x),m2.t.c0,1e-12,"thickness"+nm); ctx.close(val(t->getDensity()),m2.rho(sc.so[0].x),m2.rho.c0,1e-12,"density"+nm); ctx.close(val(t->getParameter(0)),m2.E(sc.so[0].x),m2.E.c0,1e-12,"parameter"+nm);
    same(ctx,t.get(),t2.get(),sc,z,true,"changed"+nm);
    // the material it was built from is a different object
    MP f=sc.m.make(sc.mp); same(ctx,b.get(),f.get(),sc,z,true,"wrapped material"+nm);
}
PROP(M07,wrapclone,300,"a copy of a tension-field material and the original are used alternately with different deformed geometries and values; each answers as a fresh one; non-trivial: always")
{
    Source&s=ctx.s; int dim=dimOf(s); Combo c=anyCombo(ctx); Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.15,0.05,3,1); ctx.nontrivial(); ctx.label(cname(c,dim)); Scene sd=sc; sd.def.patch(0).coefs()*=s.real(0.9,1.1,1.05); bool val=s.flag(); if(val) sd.m=otherValues(s,sc.m); sd.surfaces(); ctx.require(admissible(sd,0.4,2.8)); Mat z=sc.z.col(0); z.setZero();
    MP b=sc.m.make(sc.mp); bool lin=c.mat==0; MP t; if(s.flag()) t=tft(dim,lin,*b); else if(dim==3) t= lin? MP(new gsMaterialMatrixTFT<3,real_t,true>(b.get())):MP(new gsMaterialMatrixTFT<3,real_t,false>(b.get())); else t= lin? MP(new gsMaterialMatrixTFT<2,real_t,true>(b.get())):MP(new gsMaterialMatrixTFT<2,real_t,false>(b.get()));
    if(s.flag(40)) t->options().setReal("SlackMultiplier",0.1);
    double sl=t->options().getReal("SlackMultiplier"); bool warm=s.flag(); if(warm) evalInt((int)MaterialOutput::VectorN,t.get(),&sc.def,sc.u);
    MP q=t->clone(); ctx.close(q->options().getReal("SlackMultiplier"),sl,1,0,"options of the copy");
    if(val){ q->setParameters(sd.m.pars()); q->setThickness(*sd.m.t.fn); q->setDensity(*sd.m.rho.fn); }
    auto ref=[&](const Scene&r,bool in,int id){ MP m=r.m.make(r.mp),w=tft(dim,lin,*m); w->options().setReal("SlackMultiplier",sl); return in? evalInt(id,w.get(),&r.def,r.u):evalOut(id,w.get(),&r.def,z,r.u); };
    static const MaterialOutput zo[]={MaterialOutput::VectorN,MaterialOutput::MatrixA,MaterialOutput::Stress,MaterialOutput::TensionField,MaterialOutput::Thickness,MaterialOutput::Density}; static const MaterialOutput io[]={MaterialOutput::VectorN,MaterialOutput::MatrixA,MaterialOutput::VectorM,MaterialOutput::Density};
    bool in=s.flag(40); int id=(int)(in?io[s.draw(4)]:zo[s.draw(6)]); Ev e1=makeEv(in,id,nullptr,t.get(),nullptr,nullptr,&sc.def,z),e2=makeEv(in,id,nullptr,q.get(),nullptr,nullptr,&sd.def,z); std::string site=outName(id)+(in?" integrated":"")+" "+cname(c,dim);
    bool gone=s.flag(20); for(int v=0;v<3;v++){ bool first=v!=1; if(first&&gone&&v==2) break; Mat A=(first?e1:e2).at(0,sc.u),B=ref(first?sc:sd,in,id); ctx.closeM(A,B,scaleOf(B,1e-3*sc.m.E.c0*(in?sc.m.t.c0:1)),1e-8,(first?"original ":"copy ")+site); }
    if(gone){ e1=Ev(); t.reset(); b.reset(); Mat A=e2.at(0,sc.u),B=ref(sd,in,id); ctx.closeM(A,B,scaleOf(B,1e-3*sc.m.E.c0*(in?sc.m.t.c0:1)),1e-8,"copy outliving the original "+site); }
}
PROP(M13,defaults,200,"the factory with options left out: SvK analytically, incompressible, analytical implementation unless said otherwise; non-trivial: an option left out")
{
    Source&s=ctx.s; int dim=dimOf(s); static const Combo cc[]={{0,false,1},{1,false,1},{1,false,2},{1,false,3},{1,true,1},{3,false,1},{3,false,2},{3,true,1},{4,false,3}}; Combo c=cc[s.draw(9)]; Scene sc=scene(ctx,dim,c.mat,c.comp,c.impl,0.15,0.05,3,2); gsOptionList o; bool om=c.mat==0&&s.flag(),oc=!c.comp&&s.flag(70),oi=c.impl==1&&s.flag(); ctx.nontrivial(om||oc||oi); ctx.desc<<" omit="<<om<<oc<<oi;
    if(!om) o.addInt("Material","",c.mat); if(!oc) o.addSwitch("Compressibility","",c.comp); if(!oi) o.addInt("Implementation","",c.impl); bool rho=s.flag(60); auto p=sc.m.pars();
    MP m= dim==2? (rho? getMaterialMatrix<2,real_t>(sc.mp,*sc.m.t.fn,p,*sc.m.rho.fn,o):getMaterialMatrix<2,real_t>(sc.mp,*sc.m.t.fn,p,o)) : (rho? getMaterialMatrix<3,real_t>(sc.mp,*sc.m.t.fn,p,*sc.m.rho.fn,o):getMaterialMatrix<3,real_t>(sc.mp,*sc.m.t.fn,p,o));
    MP r= dim==2? direct<2>(sc,c,0,rho):direct<3>(sc,c,0,rho); { std::ostringstream a,b; a<<*m; b<<*r; ctx.check(a.str()==b.str(),"kind of material "+cname(c,dim)); } same(ctx,m.get(),r.get(),sc,sc.z,rho,"factory "+cname(c,dim));
}
