# name ret arg...   arg = type.mode[.kind]
# types: d f i b c cat | vd vf (3-vector) md mf (3x3) sd sf (Spherical) pd pf (VectorPV) qd qf (SphericalPV)
#        dt (Date) cr (ConversionResult) am (AltazMount) fc (FitCoeffs) ob (Observatory) st (C string)
#        da fa ia (arrays, size set by a custom generator) xy (array of [2])
# modes: i (input) o (output) x (in/out);   "custom:<gen>" after the name selects a hand-written generator
airmas d d.i.zd
range f f.i.ang
drange d d.i.ang
ranorm f f.i.ang
dranrm d d.i.ang
av2m v vf.i.axis mf.o
dav2m v vd.i.axis md.o
cc2s v vf.i.vec sf.o
dcc2s v vd.i.vec sd.o
cs2c v sf.i vf.o
dcs2c v sd.i vd.o
euler v st.i.order f.i.ang f.i.ang f.i.ang mf.o
deuler v st.i.order d.i.ang d.i.ang d.i.ang md.o
imxv v mf.i.rot vf.i.vec vf.o
dimxv v md.i.rot vd.i.vec vd.o
m2av v mf.i.rot vf.o
dm2av v md.i.rot vd.o
mxm v mf.i.rot mf.i.rot mf.o
dmxm v md.i.rot md.i.rot md.o
mxv v mf.i.rot vf.i.vec vf.o
dmxv v md.i.rot vd.i.vec vd.o
vdv f vf.i.vec vf.i.vec
dvdv d vd.i.vec vd.i.vec
vn f vf.i.vec vf.o
dvn d vd.i.vec vd.o
vxv v vf.i.vec vf.i.vec vf.o
dvxv v vd.i.vec vd.i.vec vd.o
zd d sd.i d.i.lat
pa d sd.i d.i.lat
bear f sf.i sf.i
dbear d sd.i sd.i
pav f vf.i.uvec vf.i.uvec
dpav d vd.i.uvec vd.i.uvec
e2h v sf.i f.i.lat f.o f.o
de2h v sd.i d.i.lat d.o d.o
h2e v f.i.ang f.i.lat f.i.lat sf.o
dh2e v d.i.ang d.i.lat d.i.lat sd.o
caf2r i i.i.deg i.i.min60 f.i.sec60 f.o
daf2r i i.i.deg i.i.min60 d.i.sec60 d.o
cldj i i.i.year i.i.month i.i.day d.o
caldj i i.i.year i.i.month i.i.day d.o
clyd i i.i.year i.i.month i.i.day i.o i.o
calyd i i.i.year i.i.month i.i.day i.o i.o
djcal b i.i.ndp4 d.i.mjd dt.o
djcl b d.i.mjd dt.o
cd2tf v i.i.ndp f.i.days cr.o
dd2tf v i.i.ndp d.i.days cr.o
cr2af v i.i.ndp f.i.ang cr.o
dr2af v i.i.ndp d.i.ang cr.o
cr2tf v i.i.ndp f.i.ang cr.o
dr2tf v i.i.ndp d.i.ang cr.o
ctf2d i i.i.hour i.i.min60 f.i.sec60 f.o
dtf2d i i.i.hour i.i.min60 d.i.sec60 d.o
ctf2r i i.i.hour i.i.min60 f.i.sec60 f.o
dtf2r i i.i.hour i.i.min60 d.i.sec60 d.o
dat d d.i.mjd
dt d d.i.jep
dtt d d.i.mjd
rcc d d.i.mjd d.i.frac d.i.ang d.i.earthr d.i.earthr
gmst d d.i.mjd
gmsta d d.i.mjd d.i.frac
atmdsp v d.i.tk d.i.pmb d.i.rh d.i.wl d.i.refa d.i.refb d.i.wl d.o d.o
refcoq v d.i.tk d.i.pmb d.i.rh d.i.wl d.o d.o
refro d d.i.zd d.i.hm d.i.tk d.i.pmb d.i.rh d.i.wl d.i.lat d.i.tlr d.i.eps
refco v d.i.hm d.i.tk d.i.pmb d.i.rh d.i.wl d.i.lat d.i.tlr d.i.eps d.o d.o
refv v vd.i.uvec d.i.refa d.i.refb vd.o
refz d d.i.zd d.i.refa d.i.refb
ecmat v d.i.mjd md.o
dmat custom:mat b i.i da.x da.x d.o ia.o
smat custom:mat b i.i fa.x fa.x f.o ia.o
svd custom:svd i i.i i.i i.i i.i da.x da.o da.o da.o
svdsol custom:svdsol v i.i i.i i.i i.i da.i da.i da.i da.i da.o da.o
svdcov custom:svdcov v i.i i.i i.i da.i da.i da.o da.o
altaz v sd.i d.i.lat am.o
nutc v d.i.mjd d.o d.o d.o
nut v d.i.mjd md.o
nutc80 v d.i.mjd d.o d.o d.o
epj2d d d.i.jep
epj d d.i.mjd
epb2d d d.i.jep
epb d d.i.mjd
epco d c.i.bj c.i.bj d.i.jep
prec v d.i.jep d.i.jep md.o
precl v d.i.jep d.i.jep md.o
prenut v d.i.jep d.i.mjd md.o
dsepv d vd.i.vec vd.i.vec
sepv f vf.i.vec vf.i.vec
dsep d sd.i sd.i
sep f sf.i sf.i
prebn v d.i.jep d.i.jep md.o
preces v cat.i d.i.jep d.i.jep sd.x
supgal v sd.i sd.o
rverot f f.i.lat sf.i f.i.ang
rvgalc f sf.i
rvlg f sf.i
rvlsrd f sf.i
rvlsrk f sf.i
cc62s v pf.i qf.o
dc62s v pd.i qd.o
cs2c6 v qf.i pf.o
ds2c6 v qd.i pd.o
etrms v d.i.jep vd.o
addet v sd.i d.i.jep sd.o
subet v sd.i d.i.jep sd.o
geoc v d.i.lat d.i.hm d.o d.o
pvobs v d.i.lat d.i.hm d.i.ang pd.o
pcd v d.i.disco d.x.xy d.x.xy
unpcd v d.i.disco d.x.xy d.x.xy
eqeqx d d.i.mjd
eqecl v sd.i d.i.mjd sd.o
eqgal v sd.i sd.o
galeq v sd.i sd.o
fitxy custom:fitxy i b.i i.i xy.i xy.i fc.o
xy2xy v d.i.xy d.i.xy fc.i d.o d.o
pxy custom:pxy v i.i xy.i xy.i fc.i xy.o d.o d.o d.o
invf b fc.i fc.o
dcmpf v fc.i d.o d.o d.o d.o d.o d.o
pm v sd.i sd.i.pm d.i.px d.i.rv d.i.jep d.i.jep sd.o
earth v i.i.eyear i.i.doy f.i.frac pf.o
ecor v sf.v i.i.eyear i.i.doy f.i.frac f.o f.o
ecleq v sd.i d.i.mjd sd.o
polmo v d.i.ang d.i.lat d.i.polm d.i.polm d.o d.o d.o
galsup v sd.i sd.o
s2tp i sf.i sf.i f.o f.o
ds2tp i sd.i sd.i d.o d.o
tp2s v f.i.xi f.i.xi sf.i sf.o
dtp2s v d.i.xi d.i.xi sd.i sd.o
tps2c i f.i.xi f.i.xi sf.i sf.o sf.o
dtps2c i d.i.xi d.i.xi sd.i sd.o sd.o
tp2v v f.i.xi f.i.xi vf.i.uvec vf.o
dtp2v v d.i.xi d.i.xi vd.i.uvec vd.o
v2tp i vf.i.uvec vf.i.uvec f.o f.o
dv2tp i vd.i.uvec vd.i.uvec d.o d.o
tpv2c i f.i.xi f.i.xi vf.i.uvec vf.o vf.o
dtpv2c i d.i.xi d.i.xi vd.i.uvec vd.o vd.o
combn custom:combn i i.i i.i ia.x
permut custom:permut i i.i ia.x ia.o
evp v d.i.mjd d.i.deqx vd.o vd.o vd.o vd.o
epv v d.i.mjd vd.o vd.o vd.o vd.o
eg50 v sd.i sd.o
ge50 v sd.i sd.o
pdq2h v d.i.lat d.i.lat d.i.ang d.o b.o d.o b.o
pda2h v d.i.lat d.i.lat d.i.ang d.o b.o d.o b.o
veri i
vers st
random f f.i.seed
gresid f f.i.stdev
moon v i.i.eyear i.i.doy f.i.frac pf.o
dmoon v d.i.mjd pd.o
obs custom:obs b i.i st.i ob.o
wait v f.i.wsec
