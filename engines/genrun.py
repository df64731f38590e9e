"""Runs the table generator (a copy of /repo/scripts/unicode.py) with the network replaced by a directory of UCD files.
usage: genrun.py SCRIPT UCDDIR ; the working directory receives what the script writes"""
import io, os, runpy, sys, urllib.request, urllib.parse
script, ucd = sys.argv[1:3]
log = []

class Resp(io.BytesIO):
    status = code = 200
    headers = {}
    def getcode(self):
        return 200
    def info(self):
        return {}

def find(url):
    u = url if isinstance(url, str) else url.full_url
    name = os.path.basename(urllib.parse.urlparse(u).path)
    log.append(u)
    return os.path.join(ucd, name)

def urlopen(url, *a, **k):
    return Resp(open(find(url), "rb").read())

def urlretrieve(url, filename=None, *a, **k):
    p = find(url)
    if filename is None:
        return p, {}
    with open(filename, "wb") as f:
        f.write(open(p, "rb").read())
    return filename, {}

urllib.request.urlopen = urlopen
urllib.request.urlretrieve = urlretrieve
sys.argv = [script]
sys.path.insert(0, os.path.dirname(script))
try:
    runpy.run_path(script, run_name="__main__")
finally:
    with open("fetched.log", "w") as f:
        f.write("\n".join(log))
