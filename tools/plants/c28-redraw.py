PROP = 'C28'
EDITS = [('fixif/LTI/Butter.py', '\t\twhile Wn2 <= Wn1:\n', '\t\tif Wn2 <= Wn1:\n')]
NEEDS = 'overlapping ranges of the band edges and two unlucky draws in a row'
BREAKS = 'the second edge may be below the first one'
DEMO = '''
import importlib, fixif.LTI
B = importlib.import_module("fixif.LTI.Butter")
for seq in ([0.9, 0.1, 0.95], [0.9, 0.1, 0.05, 0.95], [0.5, 0.6]):
    it = iter(seq)
    got = []
    B.random_sample = lambda: next(it)
    B.Butter = lambda order, W, form, name: got.append(W)
    B.random_Butter(n=(2, 4), W1=(0.1, 0.6), W2=(0.1, 0.6), form='bandpass')
    if not got[0][0] < got[0][1]:
        sys.exit('%s %s' % (seq, got))
'''
