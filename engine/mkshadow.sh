#!/bin/bash
# Derives, from the installed libstdc++ headers, two headers whose reference-count operations go through
# mcrt (so that commuting increments/decrements are not treated as conflicting). $1: output directory.
set -e
out=$1; inc=$(echo '#include <bits/shared_ptr_base.h>' | g++ -std=c++20 -x c++ -E - | sed -n 's/^# [0-9]* "\(.*\)\/bits\/shared_ptr_base.h".*/\1/p' | head -1)
mkdir -p $out/bits $out/ext
python3 - "$inc" "$out" <<'PY'
import sys,re
inc,out=sys.argv[1:3]
s=open(inc+'/ext/atomicity.h').read()
a='{ return __atomic_fetch_add(__mem, __val, __ATOMIC_ACQ_REL); }'
b='{ __atomic_fetch_add(__mem, __val, __ATOMIC_ACQ_REL); }'
assert a in s and b in s
s=s.replace(a,'{ return ::__mc_rc_add(__mem, __val); }').replace(b,'{ ::__mc_rc_add(__mem, __val); }')
s=s.replace('namespace __gnu_cxx','extern "C" int __mc_rc_add(volatile int*, int) noexcept;\nextern "C" int __mc_rc_load(const volatile int*) noexcept;\nextern "C" bool __mc_rc_lock(volatile int*) noexcept;\nnamespace __gnu_cxx',1)
open(out+'/ext/atomicity.h','w').write(s)
t=open(inc+'/bits/shared_ptr_base.h').read()
a='return __atomic_load_n(&_M_use_count, __ATOMIC_RELAXED);'
assert a in t
t=t.replace(a,'return ::__mc_rc_load(&_M_use_count);')
i=t.index('Perform lock-free add-if-not-zero operation')
j=t.rindex('{',0,i); k=t.index('return true;\n    }',i)+len('return true;\n    }')
t=t[:j]+'{ return ::__mc_rc_lock(&_M_use_count); }'+t[k:]
a='if _GLIBCXX17_CONSTEXPR (__lock_free && __double_word && __aligned)'
if a not in t:
    a='if (__lock_free && __double_word && __aligned)'
assert a in t, 'fast path'
t=t.replace(a,'if (false)')
open(out+'/bits/shared_ptr_base.h','w').write(t)
PY
