from pyv.unit import *

unit('common.byte', ['C03'], 's_common:byte', {'number': Int()}, target='common:byte', use=True)
unit('common.zeros', ['C03'], 's_common:zeros', {'length': Int(small=True)}, target='common:zeros', use=True)
unit('common.xor', ['C03'], 's_common:xor', {'left': Bytes(), 'right': Bytes()}, target='common:xor', use=True)
for op in ('vec_add', 'vec_sub'):
    unit('common.' + op, ['C03', 'C27'], 's_common:' + op, {'F': FieldP(), 'left': ListOf(FEl()), 'right': ListOf(FEl())},
         target='common:' + op, use=True, hidden=['F'])
unit('common.vec_neg', ['C03', 'C27'], 's_common:vec_neg', {'F': FieldP(), 'vec': ListOf(FEl())}, target='common:vec_neg', use=True, hidden=['F'])
unit('common.to_le_bytes', ['C03'], 's_common:to_le_bytes', {'val': Int(), 'length': Int(lo=0, hi=40)}, target='common:to_le_bytes', use=True)
unit('common.to_be_bytes', ['C03'], 's_common:to_be_bytes', {'val': Int(), 'length': Int(lo=0, hi=40)}, target='common:to_be_bytes', use=True)
unit('common.from_le_bytes', ['C03'], 's_common:from_le_bytes', {'encoded': Bytes()}, target='common:from_le_bytes', use=True)
unit('common.from_be_bytes', ['C03'], 's_common:from_be_bytes', {'encoded': Bytes()}, target='common:from_be_bytes', use=True)
unit('common.concat', ['C03'], 's_common:concat', {'parts': ListOf(Bytes(), n=3)}, target='common:concat', bounded='3 parts')
unit('common.front', ['C03', 'C27'], 's_common:front', {'length': Int(lo=0, small=True), 'vec': Bytes()}, target='common:front', use=True)
unit('common.next_power_of_2', ['C03'], 's_common:next_power_of_2', {'n': Int()}, target='common:next_power_of_2', use=True)
unit('common.front.list', ['C03', 'C27'], 's_common:front', {'F': FieldP(), 'length': Int(lo=0, small=True, hi=20), 'vec': ListOf(FEl(), max=12)},
     target='common:front', hidden=['F'])
unit('common.concat.any', ['C03'], 's_common:concat', {'m': Int(lo=0, hi=9), 'parts': ListOf(Bytes(n=lambda env: env['m']))}, target='common:concat', hidden=['m'],
     note='any number of equally long parts')
unit('common.concat_front', ['C03'], 's_common:concat_front', {'left': Bytes(), 'right': Bytes()})
unit('common.le_inverse', ['C03'], 's_common:le_inverse', {'val': Int(), 'length': Int(lo=0, hi=40)})
unit('common.be_inverse', ['C03'], 's_common:be_inverse', {'val': Int(), 'length': Int(lo=0, hi=40)})
unit('common.le_surjective', ['C03'], 's_common:le_surjective', {'encoded': Bytes()})
unit('common.be_surjective', ['C03'], 's_common:be_surjective', {'encoded': Bytes()})
unit('common.gen_rand', ['C03'], 's_common:gen_rand_len', {'length': Int(lo=0, hi=300)})
unit('common.assert_power_of_2', ['C03', 'C04', 'C05'], 's_common:assert_power_of_2', {'n': Int(lo=None)}, target='common:assert_power_of_2', use=True)
unit('common.bitrev', ['C03', 'C04'], 's_common:bitrev', {'k': Int(lo=0, hi=70), 'n': Int(gen=lambda rng, env: rng.randrange(-2, 2 ** env['k'] + 2))}, target='common:bitrev',
     symbolic=False, bounded='k < 70, sampled n')
unit('common.format_dst', ['C08'], 's_common:format_dst', {'algo_class': Int(), 'algo': Int(), 'usage': Int()}, target='common:format_dst', use=True)
