// the two discretisations of a goal-oriented problem
#pragma once
#include "shellgen.h"
#include <gsKLShell/src/gsThinShellAssemblerDWR.h>
#include <gsKLShell/src/gsThinShellDWRHelper.h>
namespace gen {
typedef gsThinShellAssemblerDWRBase<real_t> DWR; typedef std::unique_ptr<DWR> DWRP; typedef GoalFunction GF; typedef gsMultiBasis<real_t> MB;
static const GF GOALS[]={GF::Displacement,GF::Stretch,GF::PStrain,GF::PStress,GF::MembraneStrain,GF::MembraneStress,GF::MembraneForce,GF::FlexuralStrain,GF::FlexuralStress,GF::FlexuralMoment};
inline const char* gname(GF g){ switch(g){ case GF::Displacement:return "Displacement"; case GF::Stretch:return "Stretch"; case GF::PStrain:return "PStrain"; case GF::PStress:return "PStress"; case GF::MembraneStrain:return "MembraneStrain"; case GF::MembraneStress:return "MembraneStress"; case GF::MembraneForce:return "MembraneForce"; case GF::FlexuralStrain:return "FlexuralStrain"; case GF::FlexuralStress:return "FlexuralStress"; case GF::FlexuralMoment:return "FlexuralMoment"; default: return "?"; } }
inline bool flexural(GF g){ return g==GF::FlexuralStrain||g==GF::FlexuralStress||g==GF::FlexuralMoment; }
struct Dual { std::shared_ptr<MP> other; Shell S; MB L,H; DWRP a; Shell low() const { Shell r=S; r.basis=L; return r; } Shell high() const { Shell r=S; r.basis=H; return r; } };
inline MB enrich(Source&s,const MB&b,std::ostream&o){ MB h=b; int k=s.range(0,2); o<<" H="<<k; if(k==0) h.degreeElevate(1); else if(k==1) h.uniformRefine(1); else { h.degreeElevate(1); h.uniformRefine(1); } return h; }
inline DWRP makeDWR(const Shell&S,const MB&L,const MB&H,gsMaterialMatrixBase<real_t>*m)
{
    DWRP a; const gsFunction<real_t>&f=*S.force.f();
    if(S.dim==2) a.reset(new gsThinShellAssemblerDWR<2,real_t,false>(S.mp,L,H,S.bc,f,m)); else if(S.bend) a.reset(new gsThinShellAssemblerDWR<3,real_t,true>(S.mp,L,H,S.bc,f,m)); else a.reset(new gsThinShellAssemblerDWR<3,real_t,false>(S.mp,L,H,S.bc,f,m));
    if(S.cont!=-1){ gsOptionList q=a->optionsL(); q.setInt("Continuity",S.cont); a->setOptions(q); }
    if(S.pl.size()) a->setPointLoads(S.pointLoads()); if(S.hasPress) a->setPressure(static_cast<gsFunction<real_t>&>(*S.press.fn)); if(S.hasFound) a->setFoundation(*S.found.f());
    return a;
}
// a problem on two bases; the material may still hold another geometry than the one of the problem
inline Dual dual(Ctx&ctx,ShellOpt o)
{
    o.nurbs=false; Dual D; D.S=shell(ctx,o); D.S.qextra=0; D.S.bc.setGeoMap(D.S.mp); D.other=std::make_shared<MP>(D.S.mp); if(ctx.s.flag(30)) for(size_t p=0;p<D.other->nPatches();p++) D.other->patch(p).coefs()*=1.3; D.S.mat->setUndeformed(static_cast<gsFunctionSet<real_t>*>(D.other.get()));
    D.L=D.S.basis; D.H=enrich(ctx.s,D.L,ctx.desc); D.a=makeDWR(D.S,D.L,D.H,D.S.mat.get()); return D;
}
inline MP fieldIn(const MB&b,const Shell&S,const gsDofMapper&map,const Vec&v){ Shell q=S; q.basis=b; return fieldOf(q,map,v); }
}
