// A07: weakly imposed boundary conditions and interface coupling
#include "shellgen.h"
using namespace gen;
typedef gsSparseMatrix<real_t> SM;
static const int EX=4;
static double vdot(const Vec&a,const Vec&b){ return (a.transpose()*b)(0,0); }
static double scaleOf(const SM&K){ double m=0; for(int k=0;k<K.outerSize();++k) for(SM::InnerIterator it(K,k);it;++it) m=std::max(m,std::abs(it.value())); return m; }
static double maxAbs(const MP&a,const MP&b){ double m=0; for(size_t p=0;p<a.nPatches();p++) m=std::max(m,(a.patch(p).coefs()-b.patch(p).coefs()).cwiseAbs().maxCoeff()); return m; }
// a shell with weak conditions; what: 0 Dirichlet, 1 clamped, 2 C0, 3 C1, -1 any mix
static Shell weakShell(Ctx&ctx,int what)
{
    ShellOpt o; o.hyper=false; o.maxKnots=1; o.pPL=0; o.clamped=false; if(what>=2) o.pMulti=100; if(what==1||what==3) o.dim=3; Shell S=shell(ctx,o); Source&s=ctx.s;
    if((S.np()==2||S.np()==3)&&S.dim==3&&s.flag(30))
    {   // a kink: the last patch folds up along its interface
        int p=S.np()-1; boxSide sd; for(auto&f:S.mp.topology().interfaces()) if(f.first().patch==p||f.second().patch==p) sd=(f.first().patch==p?f.first():f.second()).side();
        gsMatrix<index_t> fix=S.mp.patch(p).basis().boundary(sd); Mat&c=S.mp.patch(p).coefs(); double h=0.5*s.sym(1); std::vector<char> on(c.rows(),0); for(int i=0;i<fix.size();i++) on[fix(i)]=1;
        Mat x0(1,3); x0.setZero(); for(int i=0;i<fix.size();i++) x0+=c.row(fix(i))/fix.size(); for(int i=0;i<c.rows();i++) if(!on[i]) c(i,2)+=h*(c.row(i)-x0).norm(); ctx.label("kink"); ctx.desc<<" kink="<<h;
    }
    bool mix=what<0; int n=what==0||what==1?1:mix?s.range(0,2):0;
    for(int i=0;i<n;i++)
    {
        WeakSpec w; w.patch=s.draw(S.np()); w.side=boxSide(1+s.draw(4)); w.clamped= mix? s.flag(50): what==1; if(S.dim==2) w.clamped=false; w.g=vfield(s,S.dim,S.dim,0.1);
        if(S.np()>1&&!S.mp.isBoundary(patchSide(w.patch,w.side))) continue; bool bad=false; for(auto&e:S.weak) bad|=e.patch==w.patch&&e.side==w.side; if(!bad) S.weak.push_back(w);
    }
    if(S.np()>1&&(mix||what>=2)){ S.wC0= what==2||(mix&&s.flag(60)); S.wC1= what==3||(mix&&s.flag(60)); if(S.wC0||S.wC1) { bool c=s.flag(25); S.cont=c?0:-1; } if(S.np()>2){ int all=(1<<S.mp.nInterfaces())-1; if(s.flag(50)) S.im0=1+s.draw(all); if(s.flag(50)) S.im1=1+s.draw(all); } }
    S.aD=s.logreal(1,1e4,10); S.aR=s.logreal(1,1e4,10); S.aI=s.logreal(1,1e4,10); S.applyBCs();
    ctx.desc<<" weak="; for(auto&w:S.weak) ctx.desc<<w.patch<<":"<<w.side<<(w.clamped?"c ":"d "); ctx.desc<<(S.wC0?" C0":"")<<(S.wC1?" C1":"")<<" masks="<<S.im0<<","<<S.im1<<" a="<<S.aD<<","<<S.aR<<","<<S.aI;
    ctx.require(!S.weak.empty()||S.wC0||S.wC1); for(auto&w:S.weak) ctx.label(w.clamped?"clamped":"dirichlet"); if(S.wC0) ctx.label("C0"); if(S.wC1) ctx.label("C1");
    return S;
}
static void weakCheck(Ctx&ctx,int what,const std::string&site)
{
    Shell S=weakShell(ctx,what); MP def=deformed(ctx,S); ctx.require(okState(S,def,EX,0.5,2.0)&&okState(S,S.mp,EX,0.5,2.0));
    AsmP a=S.make(S.mat.get(),ctx.s.flag(30)); gsDofMapper map=a->getMapper(); ctx.require(map.freeSize()>0); ctx.nontrivial(maxAbs(def,S.mp)>1e-3);
    Vec x=rough(ctx.s,map.freeSize(),1.0),y=rough(ctx.s,map.freeSize(),1.0); MP v=fieldOf(S,map,x),w=fieldOf(S,map,y),g=liftOf(*a,map);
    good(ctx,a->assembleVector(def),"assembleVector"); Vec r=a->rhs(); Work W=virtualWork(S,def,v,EX); Form P; penalty(S,def,v,0,EX,P);
    ctx.close(vdot(x,r),(double)(W.total()-P.val),(double)(W.scale+P.scale),1e-7,site+"/residual");
    good(ctx,a->assembleMatrix(def),"assembleMatrix"); SM K=a->matrix(); Form F=tangentForm(S,def,v,w,EX),Q; penalty(S,def,v,&w,EX,Q);
    ctx.close(vdot(x,K*y),(double)(F.val+Q.val),(double)(F.scale+Q.scale),1e-7,site+"/tangent");
    if(S.dim==3&&S.bend&&ctx.s.flag(40)){ Vec z=Vec::Zero(map.freeSize(),1); good(ctx,a->assembleMatrix(def,def,z),"assembleMatrix"); SM D=a->matrix()-K; ctx.close(scaleOf(D),0,scaleOf(K),1e-9,site+"/mixed tangent"); ctx.label("mixed"); }
    good(ctx,a->assemble(),"assemble"); SM L=a->matrix(); Vec f=a->rhs(); Form G=tangentForm(S,S.mp,v,w,EX,false,false),H; penalty(S,S.mp,v,&w,EX,H);
    ctx.close(vdot(x,L*y),(double)(G.val+H.val),(double)(G.scale+H.scale),1e-7,site+"/linear matrix");
    SM D=L-SM(L.transpose()); ctx.close(scaleOf(D),0,scaleOf(L),1e-9,site+"/symmetric"); ctx.check(vdot(y,L*y)>=-1e-9*scaleOf(L)*vdot(y,y),site+"/semidefinite");
    // right-hand side: loads, prescribed values of the weak conditions, eliminated displacements
    Form P0,G2,H2; penalty(S,S.mp,v,0,EX,P0); G2=tangentForm(S,S.mp,v,g,EX,false,false); penalty(S,S.mp,v,&g,EX,H2); Work W0=virtualWork(S,S.mp,v,EX);
    ctx.close(vdot(x,f),(double)(W0.ext()-P0.val-G2.val-H2.val),(double)(W0.scale+P0.scale+G2.scale+H2.scale),1e-7,site+"/linear rhs");
}
PROP(A07,dirichlet,80,"weakly prescribed displacement, deformed state"){ weakCheck(ctx,0,"A07/dirichlet"); }
PROP(A07,clamped,60,"weakly clamped side, deformed state"){ weakCheck(ctx,1,"A07/clamped"); }
PROP(A07,c0,60,"weak displacement coupling of two patches"){ weakCheck(ctx,2,"A07/C0"); }
PROP(A07,c1,60,"weak rotation coupling of two patches"){ weakCheck(ctx,3,"A07/C1"); }
PROP(A07,mixed,60,"any mixture of weak conditions"){ weakCheck(ctx,-1,"A07/mixed"); }
// interfaces that are in no list get the default coupling
PROP(A07,default,40,"at least one interface that is in no list")
{
    Source&s=ctx.s; ShellOpt o; o.hyper=false; o.maxKnots=1; o.pPL=0; o.clamped=false; o.pMulti=100; Shell S=shell(ctx,o); S.cont=s.flag(25)?0:-1; S.aI=s.logreal(1,1e4,10); S.applyBCs(); S.wC0=S.wC1=false; MP def=deformed(ctx,S); ctx.require(okState(S,def,1,0.5,2.0));
    int dflt=s.range(0,3)-2; auto all=S.mp.topology().interfaces(); std::vector<gsBoxTopology::ifContainer> L(6); int e0=0,e1=0,i=0,open=0; ctx.desc<<" default="<<dflt<<" lists=";
    for(auto&f:all){ int c=s.flag(50)?0:s.range(1,5); ctx.desc<<c; L[c].push_back(f); if(c==0) open++; if(c==4||(c==0&&dflt==0)) e0|=1<<i; if(c==5||(c==0&&(dflt==1||dflt==-2))) e1|=1<<i; i++; }
    AsmP a=S.make(S.mat.get()),b; if(dflt!=-2) a->options().setInt("IfcDefault",dflt); if(L[1].size()) a->addUncoupled(L[1]); if(L[2].size()) a->addStrongC0(L[2]); if(L[3].size()) a->addStrongC1(L[3]); if(L[4].size()) a->addWeakC0(L[4]); if(L[5].size()) a->addWeakC1(L[5]); a->initInterfaces(); if(s.flag(30)) a->initInterfaces(); ctx.nontrivial(open>0);
    Shell T=S; T.wC0=e0!=0; T.im0=e0; T.wC1=e1!=0; T.im1=e1; b=T.make(S.mat.get()); ctx.require(b->numDofs()>0&&a->numDofs()==b->numDofs());
    good(ctx,a->assembleMatrix(def),"matrix"); good(ctx,b->assembleMatrix(def),"matrix"); SM D=a->matrix()-b->matrix(); ctx.close(scaleOf(D),0,scaleOf(b->matrix()),1e-11,"A07/default coupling, tangent");
    good(ctx,a->assembleVector(def),"vector"); good(ctx,b->assembleVector(def),"vector"); double m=b->rhs().cwiseAbs().maxCoeff(); ctx.close((a->rhs()-b->rhs()).cwiseAbs().maxCoeff(),0,m+1e-6*scaleOf(b->matrix()),1e-11,"A07/default coupling, residual");
    good(ctx,a->assemble(),"assemble"); good(ctx,b->assemble(),"assemble"); D=a->matrix()-b->matrix(); ctx.close(scaleOf(D),0,scaleOf(b->matrix()),1e-11,"A07/default coupling, linear");
}
