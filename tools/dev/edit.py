"""edit property statement: edit('C10', new_statement)"""
import re
def edit(i, statement, title=None):
    p='/tmp/dv/tools/properties.py'; t=open(p).read()
    a=t.index(f'prop("{i}",'); b=t.index('     ["', a)
    head=t[a:b]
    tl=title or re.search(r'"(?P<x>[^"]*)",\n', head[len(f'prop("{i}", "')-1:]).group('x')
    parts=[s for s in re.split(r'(?<=[.])\s+(?=[A-Z])', statement.strip())]
    assert len(parts)<=3, len(parts)
    body="\n".join(f'     "{s}{" " if k<len(parts)-1 else ""}"' for k,s in enumerate(x.replace('"','\\"') for x in parts))
    t=t[:a]+f'prop("{i}", "{tl}",\n{body},\n'+t[b:]
    open(p,'w').write(t)
