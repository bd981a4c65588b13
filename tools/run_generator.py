"""run_generator.py SCRIPT DATADIR: run the table generator with its downloads served from DATADIR."""
import io, os, runpy, sys
from email.message import Message
import urllib.request, urllib.response
script, data = sys.argv[1:3]


def lookup(url):
    if hasattr(url, "full_url"):
        url = url.full_url
    if not url.startswith("https://www.unicode.org/Public/16.0.0/ucd/"):
        raise OSError("HTTP Error 404: unexpected URL %s (the supported version is 16.0.0)" % url)
    p = os.path.join(data, os.path.basename(url))
    if not os.path.exists(p):
        raise OSError("HTTP Error 404: Not Found: " + url)
    return open(p, "rb").read()


class Response(io.BytesIO):
    status = code = 200
    reason = msg = "OK"

    def __init__(self, url, body):
        super().__init__(body)
        self.url = url
        self.headers = Message()
        self.headers["Content-Type"] = "text/plain; charset=utf-8"
        self.headers["Content-Length"] = str(len(body))
        self.length = len(body)

    def getcode(self):
        return 200

    def geturl(self):
        return self.url

    def info(self):
        return self.headers

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def getheaders(self):
        return self.headers.items()


def urlopen(url, *a, **k):
    return Response(getattr(url, "full_url", url), lookup(url))


def urlretrieve(url, filename=None, *a, **k):
    filename = filename or os.path.basename(url)
    open(filename, "wb").write(lookup(url))
    return filename, Response(url, b"").headers


class Opener:
    def open(self, url, *a, **k):
        return urlopen(url)


urllib.request.urlopen = urlopen
urllib.request.urlretrieve = urlretrieve
urllib.request.build_opener = lambda *a, **k: Opener()
sys.argv = [script]
sys.path.insert(0, os.path.dirname(script))
runpy.run_path(script, run_name="__main__")
