import subprocess
M={}
for l in '''48dbcaf C13|09fdf4b C12|d31446d C11|b6e55b7 C11|08bd6e2 C10|0a4f031 C09|18d4e1f C08|907372a C08|ef094aa C08|653cddf C08|f8282f3 C07|301255d C06|be269a7 C08|3a35a93 C05|e05466b C02|0e73576 C02|f2deb24 C01|dca7376 C03|fe6eed9 C23|86b92d7 C15|45c0f19 C15|7a1b53b C15|68d8697 C15|b69b0df C15|214512a C15|d56e5df C17|5a0f943 C17|d6e6e66 C17|d8f00e8 C17|9d4a45c C17|b22a7e1 C17|57d53fd C17|06c75bb C16|9a27c5a C16|501d936 C18|2774afc C19|e80d9fc C19|9c2c99e C19|5c20b2d C19|5bb2417 C07|331f195 C05|4f2217d C05|df1b8fc C02|01538b0 C02|baa8d8b C01|6f2cc62 C04|632621d C03|3c29a8e C10|5aaac06 C21|10a7a9a C07|02e71c4 C09|6e2824c C22|e690c12 C08|adaaf06 C08|8545b29 C21|1d7e5a9 C11|7a33677 C08|1fbb061 C11|439666f C11|0b88b71 C14|34005d4 C10|f076719 C10|4f7fb56 C10|0ad4122 C08|1d4aef2 C08|0eb90bc C08|65d8cbc C08|d5e719a C09|0e6068e C09|b54e368 C14|6ad2419 C14|159d05c C13|2c5b31d C13'''.split('|'):
    h,p=l.split(); M[h]=p
out=["# Defects of ezwelty/glimpse found with this work. 'fixed' entries suppress nothing.",
"finding: property=C19 key=transform-list-order A transform attribute that lists several functions is applied leftmost first (translate(1,2) scale(2) maps (1, 2) to (4, 8); SVG 1.1 section 7.6 requires (3, 6)); the order is pinned by a doctest of the existing test suite, so it is recorded rather than repaired"]
for l in subprocess.run('git -C /tmp/dr log --oneline --reverse --grep="^fix:"',shell=True,text=True,stdout=-1).stdout.splitlines():
    h,msg=l.split(' fix: ',1)
    if h not in M: print('NO',l)
    out.append(f'fixed: property={M.get(h,"C08")} {h} {msg} (failed before)')
open('/tmp/dv/KNOWN_FINDINGS.txt','w').write('\n'.join(out)+'\n')
