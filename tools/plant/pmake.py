import sys; sys.path.insert(0,'/tmp/seed')
from concurrent.futures import ThreadPoolExecutor
import make
ns={}; exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
with ThreadPoolExecutor(5) as ex: list(ex.map(make.make,[s for s in ns['S'] if not only or s['id'] in only]))
