#!/usr/bin/env python3
"""units/rc2.vu: RFC 2268."""
PI=bytes.fromhex('''d978f9c419ddb5ed28e9fd794aa0d89d c67e37832b76538e624c6488448bfba2 179a59f587b34f1361456d8d09817d32 bd8f40eb86b77b0bf09521225c6b4e82
54d66593ce60b21c7356c014a78cf1dc 1275ca1f3bbee4d1423dd430a33cb626 6fbf0eda4669075727f21d9bbc944303 f811c7f690ef3ee706c3d52fc8661ed7
08e8eade8052eef784aa72ac354d6a2a 961ad2715a1549744b9fd05e0418a4ec c2e0416e0f51cbcc2491af50a1f47039 997c3a8523b8b47afc02365b25559731
2d5dfa98e38a92ae05df2910676cbac9 d300e6cfe19ea82c6316013f58e289a9 0d38341bab33ffb0bb480c5fb9b1cd2e c5f3db47e5a59c770aa62068fe7fc1ad''')
assert sorted(PI)==list(range(256))
rows='\n'.join('    ' for _ in range(0))
T=', '.join((f'{v}u8' if i==0 else str(v)) for i,v in enumerate(PI))
RW=[int.from_bytes(PI[16*i:16*i+16],'big') for i in range(16)]
open('/verif/units/rc2.vu','w').write(open('/verif/tools/rc2.tpl').read().replace('@TABLE@',T)
  .replace('@ROWV@',' else '.join(f'if i == {i} {{ {hex(v)} }}' for i,v in enumerate(RW))+' else { 0 }')
  .replace('@ROWS@',''.join(f"""    if i == {i} {{
        assert(be_bytes({hex(v)}nat, 16) =~= seq![{', '.join(str(b)+'u8' for b in PI[16*i:16*i+16])}]) by (compute);
        assert(seq![{', '.join(str(b)+'u8' for b in PI[16*i:16*i+16])}] =~= pit().subrange({16*i}, {16*i+16}));
    }}
""" for i,v in enumerate(RW))))
