#!/usr/bin/env python3
"""Lists the modules that exist in harness/src/lib.rs."""
import re, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = H + '/harness/src/lib.rs'
s = open(p).read()
names = [n for n in ('n%02d' % i for i in range(1, 33)) if os.path.exists('%s/harness/src/%s.rs' % (H, n))]
open(p, 'w').write(re.sub(r'modules!\(.*?\);', 'modules!(%s);' % ', '.join('%s "%s"' % (n, n) for n in names), s))
