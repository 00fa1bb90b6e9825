// A09: an assembler in any state of use equals a fresh one for the same problem
#include "shellgen.h"
using namespace gen;
typedef gsSparseMatrix<real_t> SM;
static double big(const SM&K){ double m=0; for(int k=0;k<K.outerSize();++k) for(SM::InnerIterator it(K,k);it;++it) m=std::max(m,std::abs(it.value())); return m; }
static double big(const Vec&v){ return v.size()?v.cwiseAbs().maxCoeff():0; }
static void same(Ctx&ctx,const SM&a,const SM&b,const std::string&site)
{
    ctx.check(a.rows()==b.rows()&&a.cols()==b.cols(),site+" size","sizes differ"); SM D=a-b; ctx.close(big(D),0,big(b),1e-11,site);
}
static void same(Ctx&ctx,const Vec&a,const Vec&b,double scale,const std::string&site){ ctx.check(a.rows()==b.rows()&&a.cols()==b.cols(),site+" size","sizes differ"); if(a.size()) ctx.close((a-b).cwiseAbs().maxCoeff(),0,scale,1e-10,site); }
typedef std::shared_ptr<Shell> Spec;
struct World { std::vector<Spec> specs; std::vector<std::shared_ptr<gsFunctionSet<real_t> > > keep; };
// new specification object; what the assembler already refers to stays as it is
static Spec clone(World&W,const Spec&o){ Spec n(new Shell(*o)); W.specs.push_back(n); n->applyBCs(); return n; }
static void newBCs(Ctx&ctx,Shell&S)
{
    Source&s=ctx.s; S.bcs.clear(); S.weak.clear(); int n=s.range(0,2),np=S.np();
    for(int i=0;i<n;i++)
    {
        BCspec b; b.patch=s.draw(np); b.side=boxSide(1+s.draw(4)); b.comp=s.range(-1,S.dim-1); b.kind= b.comp>=0? s.range(0,2):0; b.val=0.1*s.sym(1); b.type=condition_type::dirichlet;
        if(s.flag(20)){ b.type=condition_type::clamped; b.kind=0; } if(np>1&&!S.mp.isBoundary(patchSide(b.patch,b.side))) continue;
        bool bad=false; for(auto&e:S.bcs) bad|=e.patch==b.patch&&e.side==b.side; if(!bad) S.bcs.push_back(b);
    }
    if(s.flag(30)){ WeakSpec w; w.patch=s.draw(np); w.side=boxSide(1+s.draw(4)); w.clamped=S.dim==3&&s.flag(50); w.g=vfield(s,S.dim,S.dim,0.1); if(S.mp.isBoundary(patchSide(w.patch,w.side))) S.weak.push_back(w); }
    S.applyBCs();
}
static void newPL(Ctx&ctx,Shell&S)
{
    Source&s=ctx.s; S.pl.clear(); int n=s.range(0,2);
    for(int i=0;i<n;i++){ PLoad q; q.patch=s.draw(S.np()); Mat sup=S.mp.patch(q.patch).support(); for(int j=0;j<2;j++) q.xi[j]=sup(j,0)+(sup(j,1)-sup(j,0))*s.real(0,1,0.5); for(int j=0;j<3;j++) q.v[j]=s.sym(1); q.parametric=true; S.pl.push_back(q); }
}
static MP smallDef(Ctx&ctx,const Shell&S){ MP d=S.mp; for(int p=0;p<S.np();p++){ Mat&c=d.patch(p).coefs(); Vec r=rough(ctx.s,c.size(),0.02); for(int i=0;i<c.size();i++) c.data()[i]+=r(i,0); } return d; }
template<class A> static void observe(Ctx&ctx,A&a,const Spec&S,int kind,const std::string&site,bool fixedDef=false)
{
    AsmP f=S->make(S->mat.get(),false); ctx.check(a.numDofs()==f->numDofs(),site+"/numDofs",util::to_string(a.numDofs())+" vs "+util::to_string(f->numDofs())); if(f->numDofs()==0) return;
    MP def=smallDef(ctx,*S); bool hom=ctx.s.flag(50);
    switch(kind)
    {
        case 0: good(ctx,f->assemble(),"fresh assemble"); good(ctx,a.assemble(),"assemble"); same(ctx,a.matrix(),f->matrix(),site+"/linear matrix"); same(ctx,a.rhs(),f->rhs(),big(f->rhs())+1e-4*big(f->matrix()),site+"/linear vector"); break;
        case 1: good(ctx,f->assembleVector(def,hom),"fresh vector"); good(ctx,a.assembleVector(def,hom),"assembleVector"); same(ctx,a.rhs(),f->rhs(),big(f->rhs()),site+"/residual"); break;
        case 2: good(ctx,f->assembleMatrix(def),"fresh matrix"); good(ctx,a.assembleMatrix(def),"assembleMatrix"); same(ctx,a.matrix(),f->matrix(),site+"/tangent"); break;
        case 3: { bool l=ctx.s.flag(30); good(ctx,f->assembleMass(l),"fresh mass"); good(ctx,a.assembleMass(l),"assembleMass"); same(ctx,a.massMatrix(),f->massMatrix(),site+"/mass"); break; }
        case 4: good(ctx,f->assemble(def,true,hom),"fresh both"); good(ctx,a.assemble(def,true,hom),"assemble both"); same(ctx,a.matrix(),f->matrix(),site+"/tangent of both"); same(ctx,a.rhs(),f->rhs(),big(f->rhs()),site+"/residual of both"); break;
        case 5: { Vec x=rough(ctx.s,f->numDofs(),1.0); MP u=a.constructDisplacement(x),v=f->constructDisplacement(x); for(int p=0;p<S->np();p++) ctx.closeM(u.patch(p).coefs(),v.patch(p).coefs(),1,1e-12,site+"/displacement"); MP y=a.constructSolution(x),z=f->constructSolution(x); for(int p=0;p<S->np();p++) ctx.closeM(y.patch(p).coefs(),z.patch(p).coefs(),big(z.patch(p).coefs()),1e-12,site+"/solution"); break; }
    }
}
template<short_t d,bool b> static void history(Ctx&ctx,const Shell&S0,int maxOps,int mode)
{
    typedef gsThinShellAssembler<d,real_t,b> A; Source&s=ctx.s; World W; Spec sp(new Shell(S0)); W.specs.push_back(sp); sp->applyBCs();
    struct Live { std::unique_ptr<A> a; Spec s; }; std::vector<Live> live(1); live[0].s=sp; live[0].a.reset(static_cast<A*>(sp->make(sp->mat.get(),s.flag(40)).release())); ctx.desc<<" ops:"; int changes=0;
    int n=s.range(1,maxOps);
    for(int i=0;i<n;i++)
    {
        int w=s.draw(live.size()); Live&L=live[w]; A&a=*L.a; int op=s.draw(mode==1?16:12); if(op==11) op=15; else if(op>11) op--; ctx.desc<<" "<<w<<"."<<op;
        switch(op)
        {
            case 0: case 1: observe(ctx,a,L.s,s.draw(6),"A09/use"); break;
            case 2: { Spec q=clone(W,L.s); newPL(ctx,*q); a.setPointLoads(q->pointLoads()); L.s=q; changes++; break; }
            case 3: if(d==3){ Spec q=clone(W,L.s); q->hasPress=true; q->press=field(s,s.sym(0.1),3,0.2); a.setPressure(static_cast<gsFunction<real_t>&>(*q->press.fn)); L.s=q; changes++; } break;
            case 4: if(d==3){ Spec q=clone(W,L.s); q->hasFound=true; q->found=vfield(s,3,3,1.0,true,true); a.setFoundation(*q->found.f()); L.s=q; changes++; } break;
            case 5: { Spec q=clone(W,L.s); newBCs(ctx,*q); a.updateBCs(q->bc); L.s=q; changes++; break; }
            case 6: { Spec q=clone(W,L.s); q->aD=s.logreal(1,1e4,10); q->aR=s.logreal(1,1e4,10); q->aI=s.logreal(1,1e4,10); if(s.flag(50)){ a.options().setReal("WeakDirichlet",q->aD); a.options().setReal("WeakClamped",q->aR); a.options().setReal("IfcPenalty",q->aI); } else { gsOptionList o=a.options(); o.setReal("WeakDirichlet",q->aD); o.setReal("WeakClamped",q->aR); o.setReal("IfcPenalty",q->aI); a.setOptions(o); } L.s=q; changes++; break; }
            case 7: if(L.s->np()>1){ Spec q=clone(W,L.s); q->cont=-1-q->cont; gsOptionList o=a.options(); o.setInt("Continuity",q->cont); a.setOptions(o); L.s=q; changes++; } break;
            case 8: if(L.s->np()>1){ Spec q=clone(W,L.s); q->wC0=s.flag(50); q->wC1=s.flag(50); q->im0=s.flag(50)?-1:s.range(1,3); q->im1=s.flag(50)?-1:s.range(1,3); a.addWeakC0(q->ifcs(q->wC0,q->im0)); a.addWeakC1(q->ifcs(q->wC1,q->im1)); L.s=q; changes++; } break;
            case 9: { Spec q=clone(W,L.s); Mat x=q->mp.patch(0).coefs(); for(int p=0;p<q->np();p++) q->mp.patch(p).scale(s.real(0.8,1.25,1.1)); q->applyBCs(); a.setGeometry(q->mp); a.updateBCs(q->bc); L.s=q; changes++; ctx.label("geometry"); break; }
            case 10: { MP df=smallDef(ctx,*L.s); Mat sup=L.s->mp.patch(0).support(); Mat u=0.5*(sup.col(0)+sup.col(1)); switch(s.draw(4)){ case 0: a.getArea(df); break; case 1: if(a.numDofs()) a.assembleVector(df); if(d==3) { a.assemblePressureVector(0.3,df); } break; case 2: a.boundaryForce(df,patchSide(0,boxSide(1+s.draw(4)))); break; case 3: a.computePrincipalStretches(u,df); break; } ctx.label("query"); break; }
            case 11: { if(live.size()>2) break; Live N; N.s=L.s; N.a.reset(new A(a)); live.push_back(std::move(N)); ctx.label("copy"); changes++; break; }
            case 12: { int v=s.draw(live.size()); if(v==w) break; *live[v].a=*L.a; live[v].s=L.s; ctx.label("assign"); changes++; break; }
            case 13: { if(live.size()<2) break; live.erase(live.begin()+w); ctx.label("destroy"); changes++; break; }
            case 15: { if(L.s->mp.patch(0).basis().size()>30) break; Spec q=clone(W,L.s); q->mp.uniformRefine(); q->basis=gsMultiBasis<real_t>(q->mp); q->applyBCs(); if(s.flag(50)){ a.setBasis(q->basis); a.setGeometry(q->mp); } else { a.setGeometry(q->mp); a.setBasis(q->basis); } a.updateBCs(q->bc); L.s=q; changes++; ctx.label("basis"); break; }
            case 14: { std::unique_ptr<A> t(new A(give(a))); L.a=std::move(t); ctx.label("move"); changes++; break; }
        }
    }
    for(auto&L:live){ observe(ctx,*L.a,L.s,s.draw(6),"A09/end"); }
    ctx.nontrivial(changes>0);
}
static void run(Ctx&ctx,int maxOps,int mode)
{
    ShellOpt o; o.hyper=false; o.maxKnots=1; o.pPL=0; o.neumann=true; o.clamped=false; o.pMulti=40; Shell S=shell(ctx,o); S.qextra=0;
    if(S.dim==2) history<2,false>(ctx,S,maxOps,mode); else if(S.bend) history<3,true>(ctx,S,maxOps,mode); else history<3,false>(ctx,S,maxOps,mode);
}
PROP(A09,history,120,"at least one change of the problem"){ run(ctx,8,0); }
PROP(A09,copies,80,"at least one change, copy, assignment, move or destruction"){ run(ctx,10,1); }
