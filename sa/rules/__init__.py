from . import policy, policy2, response, transport, internal
RULES={'P01':policy.P01,'P02':policy2.P02,'P03':response.P03,'P04':response.P04,'P05':transport.P05,'P06':transport.P06,"P31":internal.P31}
from . import locks as _l
RULES.update(P11=_l.P11,P12=_l.P12,P13=_l.P13)
from . import bounds as _b, encode as _e
RULES.update(P10=_b.P10,P07=_e.P07)
from . import reads as _r
RULES.update(P09=_r.P09)
from . import cachep as _c
RULES.update(P17=_c.P17,P18=_c.P18,P19=_c.P19,P20=_c.P20,P21=_c.P21)
from . import own as _o
RULES.update(P22=_o.P22,P23=_o.P23)
from . import config as _cf
RULES.update(P24=_cf.P24)
from . import formats as _f
RULES.update(P33=_f.P33)
from . import reload as _rl
RULES.update(P15=_rl.P15,P16=_rl.P16)
from . import ends as _en
RULES.update(P08=_en.P08)
from . import waits as _w
RULES.update(P26=_w.P26)
