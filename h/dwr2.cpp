// D04: the two discretisations answer as two independent assemblers, whatever was done before
#include "dwrgen.h"
using namespace gen;
typedef gsSparseMatrix<real_t> SM;
static double big(const SM&K){ double m=0; for(int k=0;k<K.outerSize();++k) for(SM::InnerIterator it(K,k);it;++it) m=std::max(m,std::abs(it.value())); return m; }
static double big(const Vec&v){ return v.size()?v.cwiseAbs().maxCoeff():0; }
static void same(Ctx&ctx,const SM&a,const SM&b,const std::string&site){ ctx.check(a.rows()==b.rows()&&a.cols()==b.cols(),site+" size",util::to_string(a.rows())+" vs "+util::to_string(b.rows())); SM D=a-b; ctx.close(big(D),0,big(b),1e-11,site); }
static void same(Ctx&ctx,const Mat&a,const Mat&b,double scale,const std::string&site){ ctx.check(a.rows()==b.rows()&&a.cols()==b.cols(),site+" size",util::to_string(a.rows())+" vs "+util::to_string(b.rows())); if(a.size()) ctx.close((a-b).cwiseAbs().maxCoeff(),0,scale,1e-10,site); }
struct Prob { Shell S; MB L,H; }; typedef std::shared_ptr<Prob> PP;
static MP smallDef(Ctx&ctx,const Shell&S){ MP d=S.mp; for(int p=0;p<S.np();p++){ Mat&c=d.patch(p).coefs(); Vec r=rough(ctx.s,c.size(),0.02); for(int i=0;i<c.size();i++) c.data()[i]+=r(i,0); } return d; }
static void observe(Ctx&ctx,DWR&a,const PP&P,int kind,const std::string&site)
{
    Source&s=ctx.s; bool h=s.flag(50); Shell S=P->S; S.basis=h?P->H:P->L; AsmP f=S.make(S.mat.get(),false); std::string t=site+(h?"/fine":"/coarse"); ctx.desc<<(h?"H":"L")<<kind;
    int n=h?a.numDofsH():a.numDofsL(); ctx.check(n==f->numDofs(),t+"/numDofs",util::to_string(n)+" vs "+util::to_string(f->numDofs())); if(n==0) return;
    MP def=smallDef(ctx,S);
    switch(kind)
    {
        case 0: good(ctx,f->assemble(),"fresh"); good(ctx,h?a.assembleH():a.assembleL(),"assemble"); same(ctx,h?a.matrixH():a.matrixL(),f->matrix(),t+"/matrix"); same(ctx,h?a.primalH():a.primalL(),f->rhs(),big(f->rhs())+1e-4*big(f->matrix()),t+"/vector"); break;
        case 1: good(ctx,f->assembleMatrix(def),"fresh"); good(ctx,h?a.assembleMatrixH(def):a.assembleMatrixL(def),"tangent"); same(ctx,h?a.matrixH():a.matrixL(),f->matrix(),t+"/tangent"); break;
        case 2: good(ctx,f->assembleVector(def),"fresh"); good(ctx,h?a.assemblePrimalH(def):a.assemblePrimalL(def),"residual"); same(ctx,h?a.primalH():a.primalL(),f->rhs(),big(f->rhs()),t+"/residual"); break;
        case 3: good(ctx,f->assemble(),"fresh"); good(ctx,h?a.assemblePrimalH():a.assemblePrimalL(),"primal"); good(ctx,h?a.assembleMatrixH():a.assembleMatrixL(),"matrix"); same(ctx,h?a.matrixH():a.matrixL(),f->matrix(),t+"/linear matrix"); same(ctx,h?a.primalH():a.primalL(),f->rhs(),big(f->rhs())+1e-4*big(f->matrix()),t+"/linear vector"); break;
        case 4: { bool l=s.flag(40); good(ctx,f->assembleMass(l),"fresh"); SM K=h?a.matrixH():a.matrixL(); good(ctx,h?a.assembleMassH(l):a.assembleMassL(l),"mass"); same(ctx,h?a.massH():a.massL(),f->massMatrix(),t+(l?"/lumped mass":"/mass")); same(ctx,h?a.matrixH():a.matrixL(),K,t+"/matrix kept"); break; }
        case 5:
        {
            Vec x=rough(s,n,0.3); MP u=h?a.constructDisplacementH(x):a.constructDisplacementL(x),v=f->constructDisplacement(x); for(int p=0;p<S.np();p++) ctx.closeM(u.patch(p).coefs(),v.patch(p).coefs(),1,1e-12,t+"/displacement");
            bool iso=true; for(int p=0;p<S.np();p++) iso&=S.basis.basis(p).size()==S.mp.patch(p).basis().size(); // the geometry is given in this basis
            if(iso) { MP y=h?a.constructSolutionH(x):a.constructSolutionL(x),z=f->constructSolution(x); for(int p=0;p<S.np();p++) ctx.closeM(y.patch(p).coefs(),z.patch(p).coefs(),big(z.patch(p).coefs()),1e-12,t+"/solution");
            MP y2; if(h) a.constructSolutionH(x,y2); else a.constructSolutionL(x,y2); for(int p=0;p<S.np();p++) ctx.closeM(y2.patch(p).coefs(),z.patch(p).coefs(),big(z.patch(p).coefs()),1e-12,t+"/solution into"); }
            { Vec w=h?a.constructSolutionVectorH(u):a.constructSolutionVectorL(u); ctx.closeM(w,x,1,1e-14,t+"/vector of a displacement"); }
            if(iso) { MP y=S.mp,z=f->constructSolution(x); if(h) a.updateMultiPatchH(x,y); else a.updateMultiPatchL(x,y); for(int p=0;p<S.np();p++) ctx.closeM(y.patch(p).coefs(),z.patch(p).coefs(),big(z.patch(p).coefs()),1e-12,t+"/updated geometry"); }
            MP y3; if(h) a.constructMultiPatchH(x,y3); else a.constructMultiPatchL(x,y3); ctx.check((int)y3.nPatches()==S.np(),t+"/field patches"); for(int p=0;p<S.np();p++) ctx.closeM(y3.patch(p).coefs(),v.patch(p).coefs(),1,1e-12,t+"/field");
            break;
        }
        case 6: if(S.dim==3)
        {
            MB L=P->L,H=P->H; DWRP g=makeDWR(P->S,L,H,S.mat.get()); GF gf=GOALS[s.draw(S.bend?8:7)]; int c=s.flag(40)?9:s.draw(gf==GF::Displacement||gf==GF::MembraneStrain?3:2); a.setGoal(gf,c); g->setGoal(gf,c); ctx.desc<<gname(gf)<<c;
            MP pr=add(def,S.mp,-1.0); double x=a.computeGoal(def),y=g->computeGoal(def); ctx.close(x,y,std::abs(y)+1e-6*(gf==GF::PStress||gf==GF::MembraneStress?S.m.E.c0:1),1e-9,t+"/goal"); good(ctx,h?a.assembleDualH(pr):a.assembleDualL(pr),"dual"); good(ctx,h?g->assembleDualH(pr):g->assembleDualL(pr),"dual"); Mat d1=h?a.dualH():a.dualL(),d2=h?g->dualH():g->dualL(); same(ctx,d1,d2,big(d2),t+"/dual"); ctx.label("dual"); break;
        }
    }
}
PROP(D04,history,100,"at least one change of the problem after construction")
{
    Source&s=ctx.s; ShellOpt o; o.hyper=false; o.maxKnots=1; o.pPL=20; o.pMulti=30; o.clamped=false; o.nurbs=false; std::vector<PP> all; PP P(new Prob); all.push_back(P); P->S=shell(ctx,o); P->S.qextra=0; for(auto&q:P->S.pl) q.parametric=true; P->S.applyBCs(); P->L=P->S.basis; P->H=enrich(s,P->L,ctx.desc);
    DWRP a=makeDWR(P->S,P->L,P->H,P->S.mat.get()); int n=s.range(1,8),changes=0; ctx.desc<<" ops:";
    auto fresh=[&](){ PP q(new Prob(*P)); all.push_back(q); q->S.applyBCs(); return q; };
    for(int i=0;i<n;i++)
    {
        int op=s.draw(10); ctx.desc<<" "<<op;
        switch(op)
        {
            case 0: case 1: case 2: observe(ctx,*a,P,s.draw(7),"D04/use"); continue;
            case 3: { PP q=fresh(); Shell&S=q->S; S.pl.clear(); int k=s.range(0,2); for(int i=0;i<k;i++){ PLoad l; l.patch=s.draw(S.np()); Mat sup=S.mp.patch(l.patch).support(); for(int j=0;j<2;j++) l.xi[j]=sup(j,0)+(sup(j,1)-sup(j,0))*s.real(0,1,0.5); for(int j=0;j<3;j++) l.v[j]=s.sym(1); l.parametric=true; S.pl.push_back(l); } a->setPointLoads(S.pointLoads()); P=q; break; }
            case 4: if(P->S.dim==3){ PP q=fresh(); q->S.hasPress=true; q->S.press=field(s,s.sym(0.1),3,0.2); a->setPressure(static_cast<gsFunction<real_t>&>(*q->S.press.fn)); P=q; } break;
            case 5: if(P->S.dim==3){ PP q=fresh(); q->S.hasFound=true; q->S.found=vfield(s,3,3,1.0,true,true); a->setFoundation(*q->S.found.f()); P=q; } break;
            case 6: { PP q=fresh(); Shell&S=q->S; S.bcs.clear(); int k=s.range(0,2); for(int i=0;i<k;i++){ BCspec b; b.patch=s.draw(S.np()); b.side=boxSide(1+s.draw(4)); b.comp=s.range(-1,S.dim-1); b.kind=b.comp>=0?s.range(0,2):0; b.val=0.1*s.sym(1); b.type=condition_type::dirichlet; if(S.np()>1&&!S.mp.isBoundary(patchSide(b.patch,b.side))) continue; bool bad=false; for(auto&e:S.bcs) bad|=e.patch==b.patch&&e.side==b.side; if(!bad) S.bcs.push_back(b); } S.applyBCs(); a->updateBCs(S.bc); P=q; break; }
            case 7: if(P->S.np()>1){ PP q=fresh(); q->S.cont=-1-q->S.cont; gsOptionList g=a->optionsL(); g.setInt("Continuity",q->S.cont); a->setOptions(g); P=q; } break;
            case 8: { PP q=fresh(); for(int p=0;p<q->S.np();p++) q->S.mp.patch(p).scale(s.real(0.8,1.25,1.1)); q->S.applyBCs(); a->setUndeformed(q->S.mp); a->updateBCs(q->S.bc); P=q; ctx.label("geometry"); break; }
            case 9: { PP q=fresh(); if(s.flag(50)){ if(q->L.basis(0).size()>30) break; q->L.uniformRefine(1); a->setBasisL(q->L); } else { if(q->H.basis(0).size()>60) break; q->H.uniformRefine(1); a->setBasisH(q->H); } a->updateBCs(q->S.bc); P=q; ctx.label("basis"); break; }
        }
        changes++;
    }
    for(int i=0;i<2;i++) observe(ctx,*a,P,s.draw(7),"D04/end"); ctx.nontrivial(changes>0);
}
