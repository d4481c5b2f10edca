"""mk.bug(id, prop, [(file, old, new)...], needs, breaks, demo_py or demo_c)"""
import os, subprocess, json, sys, textwrap
SEED='/verif/seeded'
PYSH='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/satyr-demo.XXXXXX) || exit 1
trap 'rm -rf "$d"' EXIT
mkdir "$d/satyr" && cp python/.libs/_satyr3.so python/__init__.py "$d/satyr/" || exit 1
LD_LIBRARY_PATH=$PWD/lib/.libs PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$d /usr/bin/python3 "$here/demo.py"
'''
CSH='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/satyr-demo.XXXXXX) || exit 1
trap 'rm -rf "$d"' EXIT
gcc -std=gnu99 -D_GNU_SOURCE -w -g -Iinclude -Ilib $(pkg-config --cflags glib-2.0 json-c) -o "$d/demo" "$here/demo.c" lib/.libs/libsatyr.so $(pkg-config --libs glib-2.0 json-c) || exit 1
cd "$d" && LD_LIBRARY_PATH=$OLDPWD/lib/.libs timeout 60 ./demo
'''
CSTATIC=CSH.replace('lib/.libs/libsatyr.so','lib/.libs/libsatyr_conv.a').replace('$(pkg-config --libs glib-2.0 json-c)','$(pkg-config --libs glib-2.0 json-c rpm libelf libdw) -lbfd -lopcodes -lstdc++')
def bug(id, prop, edits, needs, breaks, py=None, c=None, static=False, sh=None, files=None):
    d=f'{SEED}/{id}'; os.makedirs(d, exist_ok=True)
    for f,old,new in edits:
        p='/repo/'+f; s=open(p).read()
        assert s.count(old)==1, (id, f, s.count(old), old)
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C','/repo','checkout','--','.'],check=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(sh or (PYSH if py else CSTATIC if static else CSH)); os.chmod(d+'/demo.sh',0o755)
    if py: open(d+'/demo.py','w').write(textwrap.dedent(py).lstrip())
    if c: open(d+'/demo.c','w').write(c.lstrip())
    for n,t in (files or {}).items(): open(d+'/'+n,'w').write(t)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
