"""setup: tools present, and the engine proves a true fact and refutes a false one"""
import sym as S, prove, build
def main():
    x,y=S.sym('x'),S.sym('y')
    s,c=S.sin(x+y),S.cos(x+y)
    ok=prove.pit([(s*s+c*c,S.ONE),(s,S.sin(x)*S.cos(y)+S.cos(x)*S.sin(y)),(s,S.sin(x)*S.cos(y))],1)
    if [k is True for k in ok]!=[True,True,False]: print('engine self-test failed',ok); return 1
    build.sh(['clang-18','--version']); build.sh([build.LLVM+'opt','--version']); build.sh(['perl','-v']); build.sh(['re2c','--version'])
    print('ok'); return 0
