#!/usr/bin/env python3
"""gen/claim.py ID 'note' ['technique']: mark a property of props.py as claimed."""
import sys,re
id,note=sys.argv[1:3]; tech=sys.argv[3] if len(sys.argv)>3 else None
s=open('/verif/gen/props.py').read()
i=s.index(f'prop("{id}"'); j=s.find('\nprop(',i+1); j=len(s) if j<0 else j
blk=s[i:j]
t=repr(tech) if tech else 'BEX'
blk2=re.sub(r'technique=None(, na="[^"]*")?\)', lambda m:f'technique={t},\n note={note!r})', blk)
assert blk!=blk2
open('/verif/gen/props.py','w').write(s[:i]+blk2+s[j:])
