"""The roles of words, as specified: their scripts in their order, and the names that paths can use for them."""
VALENCE = ['E:S:.', 'E:T:.', 'E:B:.']
ACTANTS = ['E:.n.-', 'E:.d.-', 'E:.k.-', 'E:.t.-', 'E:.l.-', 'E:.m.-', 'E:.f.-', 'E:.s.-']
DEPENDANT = 'E:A:.'
INDEPENDANT = 'E:U:.'
LINKS = ["E:S:.-k.u.-'",
 "E:T:.-k.u.-'",
 "E:B:.-k.u.-'",
 "E:.-s.a.-k.u.-'",
 "E:.-b.a.-k.u.-'",
 "E:.-t.a.-k.u.-'",
 "E:.-k.a.-k.u.-'",
 "E:.-m.a.-k.u.-'",
 "E:.-n.a.-k.u.-'",
 "E:.-d.a.-k.u.-'",
 "E:.-f.a.-k.u.-'",
 "E:.-l.a.-k.u.-'",
 "E:.-y.-k.u.-'",
 "E:.-o.-k.u.-'",
 "E:.-e.-k.u.-'",
 "E:.-u.-k.u.-'",
 "E:.-a.-k.u.-'",
 "E:.-i.-k.u.-'",
 "E:.-wo.-k.u.-'",
 "E:.-wa.-k.u.-'",
 "E:.-we.-k.u.-'",
 "E:.-wu.-k.u.-'",
 "E:.-s.u.-k.u.-'",
 "E:.-b.u.-k.u.-'",
 "E:.-t.u.-k.u.-'",
 "E:.-k.u.-k.u.-'",
 "E:.-m.u.-k.u.-'",
 "E:.-n.u.-k.u.-'",
 "E:.-d.u.-k.u.-'",
 "E:.-f.u.-k.u.-'",
 "E:.-l.u.-k.u.-'"]
INDEX = ["j.-U:.-'d.o.-l.o.-',",
 "j.-A:.-'d.o.-l.o.-',",
 "g.-U:.-'d.o.-l.o.-',",
 "g.-A:.-'d.o.-l.o.-',",
 "h.-U:.-'d.o.-l.o.-',",
 "h.-A:.-'d.o.-l.o.-',",
 "c.-U:.-'d.o.-l.o.-',",
 "c.-A:.-'d.o.-l.o.-',",
 "p.-U:.-'d.o.-l.o.-',",
 "p.-A:.-'d.o.-l.o.-',",
 "x.-U:.-'d.o.-l.o.-',",
 "x.-A:.-'d.o.-l.o.-',"]
ORDER = VALENCE + ACTANTS + [DEPENDANT, INDEPENDANT] + LINKS + INDEX
NAMES = {'process_1': 'E:S:.',
 'process_2': 'E:T:.',
 'process_3': 'E:B:.',
 'initiator': 'E:.n.-',
 'interactant': 'E:.d.-',
 'recipient': 'E:.k.-',
 'time': 'E:.t.-',
 'location': 'E:.l.-',
 'manner': 'E:.f.-',
 'intention': 'E:.m.-',
 'cause': 'E:.s.-',
 'independant': 'E:U:.',
 'dependant': 'E:A:.',
 'and': "E:S:.-k.u.-'",
 'or (inclusive)': "E:B:.-k.u.-'",
 'or (exclusive)': "E:T:.-k.u.-'",
 'is the same as the precedent': "E:.-s.a.-k.u.-'",
 'is similar to the precedent': "E:.-b.a.-k.u.-'",
 'is distinct from the precedent': "E:.-t.a.-k.u.-'",
 'is worse than the precedent': "E:.-k.a.-k.u.-'",
 'is as good as the precedent': "E:.-m.a.-k.u.-'",
 'is better than the precedent': "E:.-n.a.-k.u.-'",
 'is less than the precedent': "E:.-d.a.-k.u.-'",
 'is as much as the precedent': "E:.-f.a.-k.u.-'",
 'is more than the precedent': "E:.-l.a.-k.u.-'",
 'is the worst of the precedent': "E:.-y.-k.u.-'",
 'is the qualitative average of the precedent': "E:.-o.-k.u.-'",
 'is the best of the precedent': "E:.-e.-k.u.-'",
 'is the minimum of the precedent': "E:.-u.-k.u.-'",
 'is the quantitative average of the precedent': "E:.-a.-k.u.-'",
 'is the maximum of the precedent': "E:.-i.-k.u.-'",
 'explains the precedent': "E:.-s.u.-k.u.-'",
 'has nothing to do with the precedent': "E:.-b.u.-k.u.-'",
 'contradicts the precedent': "E:.-t.u.-k.u.-'",
 'unfortunately opposes the precedent': "E:.-k.u.-k.u.-'",
 'balances the precedent (neutral)': "E:.-m.u.-k.u.-'",
 'is fortunately opposed to the precedent': "E:.-n.u.-k.u.-'",
 'has the opposite effect of the precedent': "E:.-d.u.-k.u.-'",
 'reduces the effect of the previous one': "E:.-f.u.-k.u.-'",
 'increases the effect of the previous one': "E:.-l.u.-k.u.-'",
 'is the effect of the precedent (therefore)': "E:.-wo.-k.u.-'",
 'is the cause of the precedent (because)': "E:.-wa.-k.u.-'",
 'is an analogy of the precedent cause to effect relationship (a fortiori, a contrario, etc.)': "E:.-we.-k.u.-'",
 'is an analogy of the precedent effect to cause relationship': "E:.-wu.-k.u.-'",
 'process': 'E:B:.'}
NAMES.update(('*%d' % (i + 1), x) for i, x in enumerate(INDEX))
# the paradigms from which the morphemes of a flexion are taken, one group for each
FLEXIONS = ["E:M:.-d.u.-'",
 "E:.-n.E:U:.+F:.-'",
 'E:O:O:.',
 'E:M:O:.',
 "E:.+E:U:S:+T:.-M:M:.o.-'",
 'E:.b.O:M:.-',
 'E:.b.O:O:.-',
 "E:S:.j.-'M:O:.-O:.-',",
 "E:.-',b.-S:.U:.-'y.-'O:.-',_",
 'E:.O:O:.-',
 "E:I:.-t.u.-'",
 "E:F:.-t.o.-'",
 "E:.-'O:O:.-M:.-'t.o.-',",
 "E:.-O:O:.-t.o.-'",
 "E:.-F:.M:M:.-l.-'",
 "E:.O:O:.O:.-t.o.-'",
 "E:M:.-O:.-t.o.-'",
 'E:M:.d.+M:O:.-',
 'E:F:M:.',
 'E:.O:.M:O:.-']
