import importlib, report
# property id -> (module, function building the tasks)
PROPS={}
def prop(i,mod,fn='tasks',level='proof',**kw): PROPS[i]=(mod,fn,level,kw)
prop('C01','pose_props','c01')
prop('C02','pose_props','c02')
prop('C03','pose_props','c03')
prop('C04','pose_props','c04')
prop('C07','simple')
prop('C05','lens','c05')
prop('C06','lens','c06')
prop('C08','splined')
prop('C09','layout','c09')
prop('C10','layout','c10')
prop('C11','stream','c11')
prop('C13','triang')
prop('C14','stereo','c14')
prop('C16','traverse')
prop('C19','image')
prop('C17','procrustes')
prop('C15','names')
prop('C12','optcb_proof',level='other')
prop('C20','outliers',level='other')
prop('C18','cmfile',level='other')
prop('C21','unproj')
prop('C22','pywrap',level='other')
prop('C24','linalg')
# what the Python interface adds to the property: bounded checks of the compiled package (parts of pywrap_core.py)
POSE='f:^(identity|rotate|transform|invert|compose)_'
PY={'C01':[POSE],'C02':[POSE,'tiny'],'C03':[POSE],'C04':['f:^(r_from|R_from|rt_from|Rt_from|skew|R_aligned|rotate_point|identity)','quat'],'C05':['f:^(un)?project LENSMODEL'],'C06':['f:^project LENSMODEL'],
 'C07':['f:pinhole|stereographic|lonlat|latlon|LENSMODEL_(PINHOLE|STEREOGRAPHIC|LONLAT|LATLON)'],'C08':['f:SPLINED'],'C09':['layout','pack'],'C10':['layout','measure'],'C11':['pack'],'C12':['callback','measure'],'C13':['pytri','f:^triangulate'],
 'C14':['range','rectify'],'C15':['lens'],'C16':['traverse'],'C17':['align','f:^align'],'C19':['image'],'C21':['unproject','f:^unproject']}
def run(i,tier):
    mod,fn,level,kw=PROPS[i]
    f=getattr(importlib.import_module(mod),fn)
    if i in PY:
        g=f
        def f(thorough): return g(thorough)+importlib.import_module('pywrap').python_parts(PY[i],thorough)
    return report.main(i,f,tier,level,**kw)
