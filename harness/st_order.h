/* strategies, shared by several harnesses */
  "", "s", "g", "g{pass=1}",
  "f{cmin=0,cmax=100000,frat=0.0}", "f{cmin=15,cmax=100000,frat=0.0}", "f{cmin=1,cmax=2,frat=0.9}",
  "d{cmin=0,cmax=100000,frat=0.0}", "d{cmin=15,cmax=100000,frat=0.0}", "d{cmin=1,cmax=2,frat=0.9}",
  "b{strat=s,cmin=2}", "b{strat=g,cmin=1}", "n{sep=h,ole=b{strat=s,cmin=1},ose=b{strat=g,cmin=2}}",
  "o{strat=s}", "o{strat=n{sep=h{pass=3},ole=f{cmin=0,cmax=100,frat=0},ose=s}}", "o{strat=g}", "o{strat=c{rat=1,cpr=f{cmin=0,cmax=100,frat=0},unc=s}}", "n{sep=h{pass=2},ole=o{strat=f{cmin=0,cmax=100,frat=0}},ose=g}", "n{sep=h{pass=2},ole=c{rat=1,cpr=g,unc=s},ose=g}",
  "c{rat=1,cpr=n{sep=h{pass=3},ole=s,ose=s},unc=s}", "c{rat=1,cpr=f{cmin=0,cmax=100,frat=0},unc=s}", "c{rat=0.7,cpr=n{sep=h{pass=3}f,ole=d{cmin=0,cmax=100,frat=0},ose=g},unc=g}", "c{rat=1,cpr=b{strat=g,cmin=2},unc=s}", "c{rat=1,cpr=o{strat=s},unc=s}",
  "k{siz=2,strat=r{job=t,map=t,poli=S,sep=h{pass=2}f}}", "k{siz=1,strat=m{vert=4,low=r{sep=h{pass=2}f},asc=f}}", "n{sep=h{pass=2},ole=k{siz=2,strat=r{sep=h{pass=2}f}},ose=k{siz=1,strat=r{sep=h{pass=2}f}}}",
  "n{sep=z,ole=s,ose=s}", "n{sep=h{pass=5},ole=s,ose=s}", "n{sep=h{pass=1},ole=s,ose=g}", "n{sep=h{pass=5}f{pass=3,move=10,bal=0.1},ole=f{cmin=0,cmax=100,frat=0.0},ose=s}", "n{sep=g{pass=3}f,ole=g,ose=g}",
  "n{sep=e{strat=h{pass=3}f,type=f},ole=s,ose=s}", "n{sep=e{strat=g{pass=3},type=t},ole=s,ose=s}", "n{sep=e{strat=m{vert=3,low=h{pass=2}f,asc=b{bnd=d{pass=5}f,org=f}},type=f},ole=s,ose=s}",
  "n{sep=m{rat=0.8,vert=2,low=h{pass=3},asc=f},ole=s,ose=s}", "n{sep=m{rat=1,vert=1,low=z,asc=h{pass=2}f,type=s},ole=f{cmin=0,cmax=9,frat=0},ose=g}", "n{sep=m{rat=0.7,vert=3,low=h{pass=3},asc=b{width=1,bnd=f{bal=0.2},org=(|h{pass=3})f{bal=0.2}}},ole=d{cmin=0,cmax=100,frat=0},ose=g}",
  "n{sep=b{width=1,bnd=h{pass=2}f,org=h{pass=2}},ole=s,ose=s}", "n{sep=h{pass=2}b{width=2,bnd=f,org=h},ole=s,ose=s}", "n{sep=(h{pass=1}|g{pass=2}|z)f,ole=s,ose=s}",
  "n{sep=/(levl<2)?h{pass=2}f;,ole=s,ose=s}", "n{sep=/(vert>2)?(h{pass=2}|m{vert=2,low=h,asc=f});,ole=f{cmin=0,cmax=100000,frat=0.0},ose=g}", "n{sep=/((vert>2)&(edge<20))?h{pass=2}:z;,ole=n{sep=h,ole=s,ose=s},ose=n{sep=g{pass=1},ole=s,ose=s}}",
  "/(vert>3)?n{sep=h,ole=s,ose=s}:g;", "/(mdeg>1)?f{cmin=0,cmax=9,frat=0}:s;", "/(load>5)|(levl=1)?g:d{cmin=0,cmax=9,frat=0};",
  "c{rat=0.7,cpr=n{sep=/(vert>6)?m{rat=0.7,vert=4,low=h{pass=10},asc=b{width=3,bnd=f{bal=0.2},org=(|h{pass=10})f{bal=0.2}}}|m{rat=0.7,vert=4,low=h{pass=10},asc=b{width=3,bnd=f{bal=0.2},org=(|h{pass=10})f{bal=0.2}}};,ole=f{cmin=15,cmax=100000,frat=0.0},ose=g},unc=n{sep=/(vert>6)?m{rat=0.7,vert=4,low=h{pass=10},asc=b{width=3,bnd=f{bal=0.2},org=(|h{pass=10})f{bal=0.2}}};,ole=f{cmin=15,cmax=100000,frat=0.0},ose=g}}",
