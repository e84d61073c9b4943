"""Which contracts decide which property.  labels/nolabels: regular expressions over obligation labels."""
import re
PROPS = {}
from contract import REG
import vec, mat, quat, rot, fn, color, box, geo, curve, frustum, interp, batch, lineq, splines
def names(*prefixes): return [n for n in REG if any(n.startswith(p) for p in prefixes)]
def defined(*mods): return [n for n in REG if REG[n].mod in mods]
def pick(src, rx): return [n for n in src if re.search(rx, n)]
def drop(src, rx): return [n for n in src if not re.search(rx, n)]
PROPS['T01'] = dict(contracts=defined('vec'))
PROPS['T02'] = dict(contracts=defined('mat'))
PROPS['T03'] = dict(contracts=defined('quat'))
PROPS['T04'] = dict(contracts=defined('rot'))

# ---- vectors
LEN = r'_(len2?|normali[sz]e.*|distance2?|fromAngle1?|setAngle.*|rotated?(_self)?|rotated?\d+|angle)$'
SEL = r'_(ctor.*|set|setv|copy|from.*|setc.*|moved|data.*|cast|const_.*|at|at_w|mirror(ed)?|major|minor|toVec.*|cross_.*|crossa_.*|set_.*)$'
vecs = defined('vec')
PROPS['P02'] = dict(contracts=pick(vecs, LEN))
PROPS['P03'] = dict(contracts=drop(pick(vecs, SEL), LEN))
PROPS['P01'] = dict(contracts=[n for n in vecs if n not in PROPS['P02']['contracts'] and n not in PROPS['P03']['contracts']] + pick(vecs, '_(cross_|crossa_)'))
# ---- matrices
mats = defined('mat'); rots = defined('rot'); quats = defined('quat')
M234 = '^m[234]_'
INV = r'_(det|trace|cofactors|adjoint|inversed|invert)$'
ROTB = r'^m[234]_((set|from)_(coord|axis|angle|frame.*)|angle.*|orthonormalise|optimize.*|isOrtho.*|isNormal.*)$'
ROTC = r'(_rotated?(Pre)?(_q|_axis|_coord|_m)?$)|mul_angles'
AFF = r'^m34_|^m4_(translate|scale|scaled|translated|point|transform|localAxis|localPlane|col|mulv3|ctor_v3|set_v3|from_v3|localPlaneA|inversed|invert)'
NOF = r'flags'
allm = mats + rots
PROPS['P05'] = dict(contracts=pick(allm, '^m[234]' + INV), nolabels=NOF)
PROPS['P07'] = dict(contracts=pick(allm, ROTB) + pick(rots, '^m34_(set|from)_(coord|axis|frame|q)'), nolabels=NOF)
PROPS['P08'] = dict(contracts=pick(allm, ROTC), nolabels=NOF)
PROPS['P09'] = dict(contracts=drop(pick(allm, AFF), ROTC), nolabels=NOF)
PROPS['P04'] = dict(contracts=[n for n in allm if re.match('m[234]_', n) and not re.search(INV, n) and n not in PROPS['P07']['contracts'] and n not in PROPS['P08']['contracts'] and (n in mats or n not in PROPS['P09']['contracts'])] + pick(rots, '^m4_transform'), nolabels=NOF)
PROPS['P06'] = dict(contracts=allm + pick(quats, '^q_m[34]_(set|from)'), labels=r'flags|frame|returns')
# ---- quaternions
PROPS['P10'] = dict(contracts=drop(quats, r'^q_m[34]_|axis|Axis|rotated'))
PROPS['P11'] = dict(contracts=pick(quats, r'^q_m[34]_|axis|Axis|rotated|^q_mul$|^q_normalize$|^q_inverse$'), nolabels=NOF)
PROPS['P24'] = dict(contracts=defined('color'))
PROPS['P25'] = dict(contracts=defined('fn'))
# ---- boxes
boxes = defined('box'); batch = defined('batch')
PROPS['P13'] = dict(contracts=pick(boxes, '_(add.*|set_p|from_p|set_pts.*|from_pts.*|union)$'))
PROPS['P13']['contracts'] += pick(batch, '^[ak][23]_')
PROPS['P15'] = dict(contracts=pick(boxes, '_(hits|intersects)_(ray|line)'))
PROPS['P14'] = dict(contracts=[n for n in boxes if n not in PROPS['P15']['contracts'] and n not in PROPS['P13']['contracts']] + ['a2_union', 'a3_union'])
geos = defined('geo')
PROPS['P17'] = dict(contracts=pick(geos, '^(ci|sp)_(intersects_l|hits_l|meets|touch)'))
PROPS['P16'] = dict(contracts=drop(pick(geos, '^(ci|sp)_'), '_(intersects_l|hits_l|meets.*|touch)$'))
PROPS['P16']['contracts'] += pick(batch, '^(ci|sp)_')
PROPS['P18'] = dict(contracts=pick(geos, '^pl_'))
PROPS['P19'] = dict(contracts=pick(geos, '^(l[23]|ray[23]|tri)_'))
PROPS['P12'] = dict(contracts=defined('interp'))
PROPS['P20'] = dict(contracts=defined('frustum'), uses=['pl_from_abc', 'pl_from_pn'])
PROPS['P22'] = dict(contracts=defined('splines'), uses=['triv_first', 'triv_last', 'triv_row'])
PROPS['P23'] = dict(contracts=defined('lineq'))
PROPS['P26'] = dict(contracts=pick(batch, '^b_'))
PROPS['P21'] = dict(contracts=defined('curve'))
for p in PROPS.values(): p['contracts'] = list(dict.fromkeys(p['contracts']))
