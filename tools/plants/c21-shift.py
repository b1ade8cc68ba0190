PROP = 'C21'
EDITS = [('fixif/SoP/VarName.py', '\t\t\t\tshift += self._shift\n', '\t\t\t\tshift = shift or self._shift\n')]
NEEDS = 'a surname with its own shift, displayed with another shift'
BREAKS = 'the two shifts are not added: u(k-1) shifted by one is u(k+1)'
DEMO = '''
from fixif.SoP.VarName import VarName
for s0 in (-2, -1, 0, 1):
    v = VarName('x', 2, surname='u', index=3, shift=s0)
    for s in (-1, 0, 1, 2):
        k = s0 + s
        want = 'u3(k)' if k == 0 else 'u3(k%+d)' % k
        if v.toStr(withSurname=True, shift=s) != want:
            sys.exit('%d %d %s' % (s0, s, v.toStr(withSurname=True, shift=s)))
'''
