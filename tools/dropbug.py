"""dropbug.py ID...: remove planted bugs from tools/bugs*.py and seeded/."""
import glob, re, shutil, sys
for i in sys.argv[1:]:
    for f in glob.glob("/verif/tools/bugs*.py"):
        s = open(f).read()
        t = re.sub(r'^B\("%s",.*?(?=^B\("|\Z)' % re.escape(i), "", s, flags=re.M | re.S)
        if t != s:
            open(f, "w").write(t)
            print(i, "removed from", f)
    shutil.rmtree(f"/verif/seeded/{i}", ignore_errors=True)
