import json,subprocess
import os; HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0,HERE)
from harness import lib
st=dict(sizes="tuple",omit=False)
def case(t,cfg,shape,cls,**k): return dict(k,t=t,cfg=cfg,shape=shape,style=st,seed=7,**{"class":cls})
F=[]
def find(id,prop,cls,clauses,what,inputs): F.append({"id":id,"property":prop,"class":cls,"clauses":clauses,"what":what,"inputs":inputs})
NE=["not equivariant","not equivariant: output grid not preserved"]
def L(cfg,n,grp,ch=1,b=1): return lib.in_shape(cfg,b,n,ch,grp)
pc=lambda **k: lib.pool_cfg(**k)
c=[]
for g,k,s,n,pool in [("P4",2,1,4,"max"),("P4M",2,1,5,"average"),("PMw",4,1,6,"average"),("P4",4,3,7,"average"),("P2MM",2,1,3,"max")]:
    cfg=pc(group=g,k=k,s=s,mode="same_equiv",pool=pool); c.append(case("silent",cfg,L(cfg,n,True),"same-odd"))
cfg=pc(dims=3,group="O",k=2,s=1,mode="same_equiv"); c.append(case("silent",cfg,L(cfg,3,True),"same-odd"))
find("F1","P08","same-odd",NE,"pooling with same_equiv silently loses equivariance when both the padding of Keras and the extra padding are odd (even pool size, e.g. pool_size=2, strides=1): the two odd zeros end up on the same side only by half",c)
c=[]
for g,k,n,grp in [("P4",2,4,False),("P4M",2,3,True),("PMw",4,5,False)]:
    cfg=lib.conv_cfg(group=g,k=k,s=1,mode="same_equiv",kind="convT"); c.append(case("silent",cfg,L(cfg,n,grp),"transposed-same-even"))
find("F2","P07","transposed-same-even",NE,"transposed convolution with stride 1, same_equiv and an even kernel silently loses equivariance: the extra padding is added to the input, where the odd crop of the output is not compensated",c)
c=[]
for g,n,grp in [("P4",4,False),("PMw",5,True),("P2MM",4,True)]:
    cfg=lib.conv_cfg(group=g,k=3,filters=2,mode="valid_equiv"); c.append(case("silent",cfg,lib.in_shape(cfg,1,n,2,grp),"grouped",extra={"groups":2}))
find("F3","P06","grouped",NE+["valid input shape rejected"],"groups=2 (grouped convolution of Keras) is accepted and silently loses equivariance: the groups of channels cut through the group axis merged with the channels",c)
c=[]
for g,s,d,n,k in [("P4",[1,2],[1,1],5,3),("P4M",[2,1],[1,1],5,1),("P4",[1,1],[1,2],6,3)]:
    cfg=lib.conv_cfg(group=g,k=k,s=s,d=d,mode="valid_equiv"); c.append(case("silent",cfg,L(cfg,n,False),"anisotropic"))
find("F4","P06","anisotropic",NE,"strides or dilations that differ along axes that the group exchanges are accepted without allow_non_equivariance and silently lose equivariance (kernel sizes that differ are refused)",c)
c=[]
for g,k,n in [("P4",[1,2],4),("P4M",[2,1],4)]:
    cfg=pc(group=g,k=k,mode="valid_equiv"); c.append(case("silent",cfg,L(cfg,n,True),"anisotropic"))
find("F5","P08","anisotropic",NE,"pool sizes or strides that differ along axes that the group exchanges are accepted without allow_non_equivariance and silently lose equivariance",c)
c=[]
for g,k,n,grp in [("P4",3,3,False),("PMw",2,4,True)]:
    cfg=lib.conv_cfg(group=g,k=k,s=k,mode="valid",kind="convT"); c.append(case("silent",cfg,L(cfg,n,grp),"output-padding",extra={"output_padding":1}))
find("F7","P07","output-padding",NE,"output_padding (of Keras' transposed convolutions) is accepted without allow_non_equivariance and silently loses equivariance: it pads the output at one side only",c)
find("F6","P21","lazy-sequential",["valid use rejected"],"a Sequential model of group convolutions without an Input, trained before it is called, fails with 'Unable to automatically build the model': the indices computed when building are constants of the trace",[dict(t="lazy",**{"class":"lazy-sequential"})])
props={"d24f539":["P10","P06"],"e92b678":["P13"],"d3e9207":["P18","P10"],"e52a4f5":["P18"],"d0c0a0c":["P08"],"7d4d355":["P19"],"eabf61e":["P19"],"33e7ea3":["P10"],"f9e47ce":["P06","P10"],"677946b":["P14"],"1f5bf30":["P10","P19"],"ad476e2":["P11"],"f228a89":["P14"],"55f68b8":["P19","P08"],"1e18b0d":["P12"],"03ff3e8":["P03"],"22a9392":["P03"],"e49847d":["P07"],"bbbe7d2":["P03"],"918bf9e":["P20"],"5c664ca":["P07"],"54c4a62":["P19"],"c0861b5":["P14","P13"],"1b56bdc":["P19"],"1f08e76":["P21"]}
fixed=[]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines():
    h,m=l.split(" ",1)
    if m.startswith("fix: "):
        for p in props[h]: fixed.append(f"fixed: property={p} {h} {m[5:]}")
json.dump({"findings":F,"fixed":fixed},open(os.path.join(HERE,'known_findings.json'),'w'),indent=1)
