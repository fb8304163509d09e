Q = 'hyperion/utils/queues.py'
M = 'hyperion/utils/multithreading.py'
SEEDS = [
 dict(id='p13-stop-early', property='P13',
  edits=[(Q, """            timeout: maximum time to wait on `thread.join()`.
        \"\"\"
        if self.is_running():
            self._stop_event.set()
""", """            timeout: maximum time to wait on `thread.join()`.
        \"\"\"
        if not self.is_running():
            return
        self._stop_event.set()
""")],
  needs='stopping a queue with several workers after the generator ended for one of them while another is still working, or looking at the queue after the end',
  breaks='stop neither waits for the workers nor drops what is pending once the generator ended',
  demo='''
import time, threading
from hyperion.utils.queues import GeneratorQueue

class G(object):
    n = 0
    lock = threading.Lock()
    def __next__(self):
        with self.lock:
            self.n += 1
            n = self.n
        if n == 1:
            time.sleep(1.5)
            return 1
        time.sleep(0.2)
        raise StopIteration

threading.excepthook = lambda a: None
q = GeneratorQueue(G())
q.start(workers=2, max_queue_size=2)
th = list(q._threads)
time.sleep(0.7)
q.stop()
assert not any(t.is_alive() for t in th), 'a worker survived the stop'
'''),
 dict(id='p13-unlocked-iter', property='P13',
  edits=[(M, """    def __next__(self):
        with self.lock:
            return self.it.__next__()
""", """    def __next__(self):
        with self.lock:
            step = self.it.__next__
        return step()
""")],
  needs='two workers asking for an item at the same time',
  breaks='the generator is entered by two threads at once, one of them dies and its queue ends early',
  demo='''
import time, threading
from hyperion.utils.multithreading import threadsafe_generator

@threadsafe_generator
def g():
    for i in range(6):
        time.sleep(0.1)
        yield i

it = g()
got, err = [], []
def w():
    while True:
        try:
            got.append(next(it))
        except StopIteration:
            return
        except ValueError as e:
            err.append(e)
            return
ts = [threading.Thread(target=w) for _ in range(3)]
for t in ts: t.start()
for t in ts: t.join()
assert not err and sorted(got) == list(range(6)), (got, err)
'''),
]
