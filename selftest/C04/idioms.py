import os, sys, warnings, logging, io, tempfile, shutil, signal, pathlib
import numpy as np
import scipy.special as sp
import matplotlib
import matplotlib as mpl
import matplotlib.pyplot as plt
from matplotlib import rcParams
from matplotlib import pyplot
from os import environ, chdir
from numpy import seterr
import pylab
def b_1(x):  # BAD :b_1:
    old = np.seterr(all='ignore'); y = np.log(x); np.seterr(**old); return y
def b_2(x):  # BAD :b_2:
    try:
        np.seterr(all='ignore'); return np.log(x)
    finally:
        np.seterr(all='warn')
def b_3(x):  # BAD :b_3:
    seterr(divide='ignore'); return 1 / x
def b_4(x): np.errstate(all='ignore').__enter__(); return x  # BAD :b_4:
def b_5(x): rcParams['a'] = 1  # BAD :b_5:
def b_6(x): mpl.rcParams['a'] = 1  # BAD :b_6:
def b_7(x): plt.rcParams.update({'a': 1})  # BAD :b_7:
def b_8(x): plt.rc('font', size=x)  # BAD :b_8:
def b_9(x): environ['a'] = 'b'  # BAD :b_9:
def b_10(x): chdir('/')  # BAD :b_10:
def b_11(x): os.environ.update(a=1)  # BAD :b_11:
def b_12(x): warnings.filterwarnings('ignore'); return x  # BAD :b_12:
def b_13(x):  # BAD :b_13:
    with warnings.catch_warnings():
        pass
    warnings.simplefilter('ignore')
def b_14(x):  # BAD :b_14:
    warnings.warn = lambda *a: None
def b_15(x): np.set_printoptions(precision=x)  # BAD :b_15:
def b_16(x): sp.seterr(all='raise')  # BAD :b_16:
def b_17(x): x.tofile('a.bin')  # BAD :b_17:
def b_18(x): pathlib.Path('a').write_text('x')  # BAD :b_18:
def b_19(x): plt.savefig('a.png')  # BAD :b_19:
def b_20(x): sys.stdout = io.StringIO()  # BAD :b_20:
def b_21(x): open('a', mode='w')  # BAD :b_21:
def b_22(x, mode='w'): open('a', mode)  # BAD :b_22:
def b_23(x): io.open('a', 'ab')  # BAD :b_23:
def b_24(x): np.save('a', x)  # BAD :b_24:
def b_25(x): np.savetxt('a', x)  # BAD :b_25:
def b_26(x): logging.getLogger().setLevel(10)  # BAD :b_26:
def b_27(x): logging.basicConfig()  # BAD :b_27:
def b_28(x): signal.signal(signal.SIGINT, x)  # BAD :b_28:
def b_29(x): sys.path.insert(0, 'a')  # BAD :b_29:
def b_30(x): sys.setrecursionlimit(10000)  # BAD :b_30:
def b_31(x): np.float = float  # BAD :b_31:
def b_32(x): setattr(np, 'float', float)  # BAD :b_32:
def b_33(x): plt.ion()  # BAD :b_33:
def b_34(x): plt.style.use('a')  # BAD :b_34:
def b_35(x): matplotlib.use('Agg')  # BAD :b_35:
def b_36(x): pylab.rcParams['x'] = 1  # BAD :b_36:
def b_37(x): os.system('ls')  # BAD :b_37:
def b_38(x):  # BAD :b_38:
    import subprocess
    subprocess.run(['ls'])
def b_39(x): plt.interactive(True)  # BAD :b_39:
def b_40(x): matplotlib.interactive(True)  # BAD :b_40:
def b_41(x): plt.set_cmap('jet')  # BAD :b_41:
def b_42(x): tempfile.mkdtemp()  # BAD :b_42:
def b_43(x): os.makedirs('a', exist_ok=True)  # BAD :b_43:
def b_44(x): shutil.copyfile('a', 'b')  # BAD :b_44:
def b_45(x):  # BAD :b_45:
    f = np.seterr
    f(all='ignore')
def b_46(x):  # BAD :b_46:
    cwd = os.getcwd(); os.chdir('/tmp'); y = x + 1; os.chdir(cwd); return y
def b_47(x):  # BAD :b_47:
    ctx = warnings.catch_warnings()
    ctx.__enter__()
    warnings.simplefilter('ignore')
def b_48(x): os.environ.pop('A', None)  # BAD :b_48:
def b_49(x): del os.environ['A']  # BAD :b_49:
def b_50(x): sys.modules['a'] = x  # BAD :b_50:
def b_51(x): np.memmap('a', mode='w+', shape=3)  # BAD :b_51:
def b_52(x): np.seterrcall(x)  # BAD :b_52:
def b_53(x):  # BAD :b_53:
    old = np.geterr()
    np.seterr(over='raise')
    if x > 0:
        return x
    np.seterr(**old)
    return 0
def b_55(x):  # BAD :b_55:
    sys.stderr.close()
def b_56(x):  # BAD :b_56:
    import builtins
    builtins.print = None
def b_57(x):  # BAD :b_57:
    import gc
    gc.disable()
def b_58(x): sys.float_repr_style = 1  # BAD :b_58:
def b_59(x):  # BAD :b_59:
    import locale
    locale.setlocale(locale.LC_ALL, '')
def b_60(x):  # BAD :b_60:
    import atexit
    atexit.register(x)
def b_61(x): plt.close('all')  # BAD :b_61:
def b_62(x): x.dump('f')  # BAD :b_62:
def b_63(x):  # BAD :b_63:
    with open('a', 'r+') as f:
        f.write('')
def ok_1(x):  # OK
    with np.errstate(all='ignore'):
        return np.log(x)
def ok_2(x):  # OK
    old = np.seterr(all='ignore')
    try:
        return np.log(x)
    finally:
        np.seterr(**old)
def ok_3(x):  # OK
    old = np.geterr()
    np.seterr(all='ignore')
    try:
        return np.log(x)
    finally:
        np.seterr(**old)
def ok_4(x):  # OK
    with open('a') as f:
        return f.read()
def ok_5(x):  # OK
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return x
def ok_6(x):  # OK
    with plt.rc_context({'a': 1}):
        plt.rcParams['b'] = 1
def ok_7(x):  # OK
    saved = dict(plt.rcParams)
    try:
        plt.rcParams['b'] = 1
    finally:
        plt.rcParams.update(saved)
def ok_8(x):  # OK
    cwd = os.getcwd()
    os.chdir('/tmp')
    try:
        return x
    finally:
        os.chdir(cwd)
def ok_9(x):  # OK
    with np.printoptions(precision=3):
        return str(x)
def ok_10(x): return os.environ.get('A'), os.path.join('a', 'b')  # OK
def ok_11(x):  # OK
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return 1 / x
@np.errstate(all='ignore')
def ok_12(x): return 1 / x  # OK
def ok_13(x):  # OK
    buf = io.StringIO(); buf.write('a'); return buf.getvalue()
