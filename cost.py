"""C22, C23 and C25: instructions counted by valgrind (cachegrind without simulated caches) around the real library.

The counts hardly depend on the machine or its load. A job's own share is the difference of two runs.
"""
import os, re, shutil, time
from concurrent.futures import ThreadPoolExecutor

MAPS = ["bremen_dist.gr", "bremen_time.gr", "south_seattle_car.gr"]
ALL = 10 ** 12
RECOMMENDED = "0.1,500,2,50"


class Unusable(Exception):
    pass


class TooMuch(Exception):
    """stopped after this many instructions, estimated from below"""
    def __init__(self, at_least):
        self.at_least = at_least


class Jobs:
    def __init__(self, check):
        import special
        self.r = special.R()
        self.check = check
        self.exe = self.r.build("std", "cost")
        self.dir = os.path.join(self.r.SCRATCH, "cost-%d" % os.getpid())
        self.r.shared(self.dir)
        self.counted = 0
        self.runs = 0
        self.cases = []
        self.notes = {}
        self.cpu = 400

    def path(self, name):
        return os.path.join(self.dir, name.replace("/", "_").replace(":", "_"))

    def native(self, *args, cpu=200):
        rc, text = self.r.run([self.exe] + [str(a) for a in args], max(30, self.check.left() - 30), cpu=cpu, mem=16 << 30)
        if rc is not None and rc < 0 and -rc == 24:
            raise TooMuch(cpu * 3e8)
        if rc != 0:
            raise Unusable("cost %s: exit code %s: %s" % (" ".join(map(str, args)), rc, text[-1500:]))
        return text

    def count(self, *args):
        """instructions of a run, and what it printed"""
        begin = time.time()
        cmd = ["valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=" + self.path("cachegrind.out.%p"), self.exe]
        rc, text = self.r.run(cmd + [str(a) for a in args], max(30, self.check.left() - 30), cpu=self.cpu)
        if rc == -24 or (rc is None and time.time() - begin > self.cpu):
            # cachegrind manages at least 100 million instructions in a second
            raise TooMuch(self.cpu * 1e8)
        m = re.search(r"I\s+refs:\s+([\d,]+)", text)
        if rc != 0 or not m:
            raise Unusable("cost %s under valgrind: exit code %s: %s" % (" ".join(map(str, args)), rc, text[-1500:]))
        n = int(m.group(1).replace(",", ""))
        self.counted += n
        self.runs += 1
        line = [l for l in text.splitlines() if l.startswith(("queries", "nodes", "loaded"))]
        return n, (line or [""])[0]

    def make(self, family, size, seed):
        f = self.path("%s-%s-%s.edges" % (family, size, seed))
        if not os.path.exists(f):
            text = self.native("make", family, size, seed, f)
            self.notes[os.path.basename(f)] = text.split("\n")[0]
        return f

    def prepare(self, edges, params):
        out = self.path("%s-%s.graph" % (os.path.basename(edges), params.replace(self.dir, "").replace("/", "")))
        if not os.path.exists(out):
            self.native("prep", edges, params, out)
        return out

    def violation(self, message):
        self.check.violation("cost", message)

    def close(self, begin):
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.cases:
            self.check.parts.append(("cost", {
                "evaluations": len(self.cases), "distinct_nontrivial": len(set(c[0] for c in self.cases)),
                "samples": [c[1] for c in self.cases[:12]],
                "counters": {"instructions_counted": self.counted, "runs_under_valgrind": self.runs},
                "measured": [c[1] for c in self.cases], "networks": self.notes, "seconds": round(time.time() - begin, 1)}))


def together(jobs, tasks):
    """runs the functions; what they report is kept in their order"""
    def one(f):
        try:
            return f()
        except Unusable as e:
            return [("error", str(e))]
    with ThreadPoolExecutor(8) as pool:
        for lines in pool.map(one, tasks):
            for kind, text in lines:
                if kind == "error":
                    jobs.check.errors.append(text)
                elif kind == "bad":
                    jobs.violation(text)
                else:
                    jobs.cases.append((kind, text))


def mega(n):
    return "%.3f million" % (n / 1e6)


# ---------------------------------------------------------------- C22

def queries(check, part):
    begin = time.time()
    j = Jobs(check)
    seed = check.seed
    thorough = check.thorough()
    k = 3000 if thorough else 250
    nets = [(m, 0, 0) for m in MAPS] + [("roads", 200, seed)]
    if thorough:
        nets += [("roads", 200, seed + i) for i in range(1, 4)] + [("roads", 400, seed), ("even", 300, seed)]
    nets.append(("even", 200, seed))
    try:
        files = {}
        plain = {}

        def prepare(net):
            def f():
                e = j.make(*net)
                g = j.prepare(e, "default")
                kinds = [("default parameters", g, 20)]
                if net[0] == "even":
                    files[net] = (e, kinds)
                    n = 100
                    a, _ = j.count("dijkstra", e, seed, 0, ALL)
                    b, _ = j.count("dijkstra", e, seed, n, ALL)
                    plain[net] = (b - a) / n
                    return []
                kinds.append(("the recommended parameters", j.prepare(e, RECOMMENDED), 10))
                for limit in (100, 500) if thorough else (100,):
                    kinds.append(("its own ordering, limit %d" % limit, j.prepare(e, "order:%s,%d" % (g, limit)), 20))
                files[net] = (e, kinds)
                n = 400 if thorough else 60
                a, _ = j.count("dijkstra", e, seed, 0, ALL)
                b, _ = j.count("dijkstra", e, seed, n, ALL)
                plain[net] = (b - a) / n
                return []
            def guarded():
                try:
                    return f()
                except TooMuch:
                    return [("error", "the preparation of %s does not end" % (net,))]
            return guarded

        together(j, [prepare(n) for n in nets])

        def measure(net, what, graph, part_of):
            def f():
                a, _ = j.count("query", graph, seed, 0, ALL)
                b, line = j.count("query", graph, seed, k, ALL)
                x = (b - a) / k
                text = "%s %s, %s: %d instructions per query, Dijkstra %d (1/%.1f)" % (
                    net[0], net[1], what, x, plain[net], plain[net] / max(1, x))
                r = [((net, what), text)]
                if x * part_of > plain[net]:
                    r.append(("bad", "random queries need more than 1/%d of a plain Dijkstra search: %s" % (part_of, text)))
                return r
            def guarded():
                try:
                    return f()
                except TooMuch as t:
                    x = t.at_least / k
                    if x * part_of > plain[net]:
                        return [("bad", "random queries on %s with %s need more than %d instructions each, Dijkstra %d" % (
                            net, what, x, plain[net]))]
                    return [("error", "the queries on %s take too long" % (net,))]
            return guarded

        tasks = [measure(net, *kind) for net in nets if net in plain for kind in files[net][1]]

        # the same queries of a small network with more and more nodes apart from it
        def padded(family):
            def f():
                r, base = [], None
                for size in (200, 3000, 60000) if not thorough else (200, 1000, 10000, 100000, 400000):
                    e = j.make("pad:" + family, size, seed)
                    g = j.prepare(e, "default")
                    a, _ = j.count("query", g, seed, 0, 900)
                    b, line = j.count("query", g, seed, k, 900)
                    x = (b - a) / k
                    base = base or x
                    text = "%s with %d nodes apart from it: %d instructions per query" % (family, size, x)
                    r.append(((family, size), text))
                    if x > 1.6 * base + 200:
                        r.append(("bad", "the cost of queries grows with nodes that they do not visit: %d instructions per query "
                                         "with 200 unrelated nodes, but %s" % (base, text)))
                return r
            return f

        # a query between nodes close to each other, and more and more nodes that are farther away
        def near():
            r, base = [], None
            for size in (300, 100000) if not thorough else (300, 3000, 30000, 300000):
                e = j.make("line", size, seed)
                g = j.prepare(e, "identity:%d" % size)
                a, _ = j.count("query", g, seed, 0, 100)
                b, line = j.count("query", g, seed, k, 100)
                x = (b - a) / k
                base = base or x
                text = "near queries on a line with %d nodes: %d instructions per query" % (size, x)
                r.append((("near", size), text))
                if x > 1.6 * base + 200:
                    r.append(("bad", "the cost of queries grows with nodes farther away than the distance: %d instructions per "
                                     "query with 300 nodes, but %s" % (base, text)))
            return r

        # the cost of a query does not depend on how many there were
        def history():
            e = j.make("roads", 100, seed)
            g = j.prepare(e, "default")
            at = [0, k, 9 * k] if not thorough else [0, k, 20 * k]
            n = [j.count("query", g, seed, x, ALL)[0] for x in at]
            first = (n[1] - n[0]) / (at[1] - at[0])
            later = (n[2] - n[1]) / (at[2] - at[1])
            text = "roads 100: %d instructions per query for the first %d, %d for the next %d" % (
                first, at[1], later, at[2] - at[1])
            r = [(("history",), text)]
            if later > 1.5 * first:
                r.append(("bad", "queries get more expensive with the number of queries of a calculator: " + text))
            return r

        def calm(f):
            def g():
                try:
                    return f()
                except TooMuch:
                    return [("error", "a job takes too long")]
            return g

        tasks += [calm(padded("roads")), calm(padded("even")), calm(history), calm(near)]
        together(j, tasks)
    finally:
        j.close(begin)


# ---------------------------------------------------------------- C23

# Dijkstra searches (of the whole network) per thousand nodes, and edges in relation to the input
ALLOWED = {"bremen_dist.gr": 25, "bremen_time.gr": 25, "south_seattle_car.gr": 100, "roads": 25}
EDGES = {"bremen_dist.gr": 1.1, "bremen_time.gr": 1.1, "south_seattle_car.gr": 2, "roads": 1.1}


def preparation(check, part):
    begin = time.time()
    j = Jobs(check)
    seed = check.seed
    thorough = check.thorough()
    nets = [(m, 0, 0) for m in MAPS] + [("roads", 200, seed)]
    if thorough:
        nets += [("roads", 200, seed + i) for i in range(1, 4)] + [("roads", 150, seed + 4)]
    try:
        def cost(e, params):
            """instructions of the preparation alone, and the printed counts"""
            a, _ = j.count("load", e, params)
            b, line = j.count("prep", e, params)
            m = re.match(r"nodes (\d+) input (\d+) out (\d+) in (\d+)", line)
            return b - a, [int(x) for x in m.groups()]

        def network(net):
            def f():
                e = j.make(*net)
                q = 40
                a, _ = j.count("dijkstra", e, seed, 0, ALL)
                b, _ = j.count("dijkstra", e, seed, q, ALL)
                # a search to a random target visits half of the network on average
                search = 2 * (b - a) / q
                r = []
                name = "%s %s" % (net[0], net[1])
                try:
                    full, (nodes, edges, out, inn) = cost(e, "default")
                except TooMuch as t:
                    # the node count is not known then
                    return [("bad", "the preparation of %s with default parameters needs more than %s instructions, a "
                                    "Dijkstra search %s" % (name, mega(t.at_least), mega(search)))]
                per = full / search / (nodes / 1000)
                text = "%s: default preparation %s instructions, %.1f Dijkstra searches per thousand nodes; %d edges, prepared " \
                       "%d and %d" % (name, mega(full), per, edges, out, inn)
                r.append(((net, "default"), text))
                if per > ALLOWED[net[0]]:
                    r.append(("bad", "more than %d Dijkstra searches per thousand nodes: %s" % (ALLOWED[net[0]], text)))
                if max(out, inn) > EDGES[net[0]] * edges:
                    r.append(("bad", "more than %s times as many edges as the input: %s" % (EDGES[net[0]], text)))
                g = j.prepare(e, "default")
                try:
                    own, (_, _, out2, in2) = cost(e, "order:%s,100" % g)
                    text = "%s: with its own ordering %s instructions, default %s; edges %d and %d" % (
                        name, mega(own), mega(full), out2, in2)
                    r.append(((net, "order"), text))
                    if own > full / 2:
                        r.append(("bad", "preparing with the own ordering costs more than half: " + text))
                    if max(out2, in2) > EDGES[net[0]] * edges:
                        r.append(("bad", "more than %s times as many edges as the input: %s" % (EDGES[net[0]], text)))
                except TooMuch as t:
                    r.append(("bad", "%s: preparing with the own ordering needs more than %s instructions, default %s" % (
                        name, mega(t.at_least), mega(full))))
                return r
            return f

        # networks side by side: proportional
        def copies(family, params):
            def f():
                r, base = [], None
                for size in (1, 12) if not thorough else (1, 4, 16, 64):
                    e = j.make("copies:" + family, size, seed)
                    try:
                        x, _ = cost(e, params)
                    except TooMuch as t:
                        x = t.at_least
                    x /= size
                    base = base or x
                    text = "%d networks of the kind %s side by side (%s): %s instructions each" % (size, family, params, mega(x))
                    r.append(((family, size, params), text))
                    if x > 1.5 * base:
                        r.append(("bad", "the effort does not grow proportionally: %s for one, but %s" % (mega(base), text)))
                return r
            return f

        # a node with 100 edges in and 20 out
        def hub(size):
            def f():
                e = j.make("hub", size, seed)
                small = {}
                r = []
                high = 1001
                # (with this limit, compared with), settled nodes that are allowed: per search the limit, and instructions each
                plans = [("order", "hub:%d,1" % size, "hub:%d,%d" % (size, 101), 100 * 100, 600),
                         ("order", "hub:%d,1" % size, "hub:%d,%d" % (size, high), 100 * 1000, 500),
                         ("initial relevance", "0.1,1,1,1", "0.1,%d,1,1" % high, 300 * 1000, 500),
                         ("contraction", "0.1,1,1,1", "0.1,1,1,%d" % high, 100 * 1000, 600),
                         ("neighbor relevance", "0.1,1,1,1", "0.1,1,%d,1" % 101, 40 * 100 * 100, 400),
                         ("neighbor relevance", "0.1,1,1,1", "0.1,1,%d,1" % high, 40 * 100 * 1000, 300)]
                for what, low, up, settled, each in plans:
                    if low not in small:
                        small[low], _ = cost(e, low)
                    try:
                        x, _ = cost(e, up)
                    except TooMuch as t:
                        x = t.at_least
                    more = x - small[low]
                    text = "node with 100 edges in and 20 out, line of %d nodes, limit of the %s: %s instructions with %s, %s " \
                           "more with %s" % (size, what, mega(small[low]), low, mega(more), up)
                    r.append(((size, what, up), text))
                    if more > settled * each:
                        r.append(("bad", "the searches for witnesses visit more nodes than the limit per edge into the node "
                                         "allows (%s instructions): %s" % (mega(settled * each), text)))
                return r
            return f

        # the longest first
        nets.sort(key=lambda n: n[0] != "south_seattle_car.gr")
        tasks = [network(n) for n in nets] + [copies("roads", "default"), copies("even", "default"),
                                              copies("roads", RECOMMENDED), hub(10000)]
        if thorough:
            tasks += [hub(30000), hub(5000)]

        def calm(f):
            def g():
                try:
                    return f()
                except TooMuch as t:
                    return [("error", "a job takes too long")]
            return g
        together(j, [calm(t) for t in tasks])
    finally:
        j.close(begin)


# ---------------------------------------------------------------- C25

SIZES = {"comments": 5000, "build": 2000, "both": 2000, "thaw": 2000, "read": 2000, "text": 2000, "file": 2000,
         "dimacs": 2000, "list": 500, "star_path": 500, "prepare_line": 1000, "prepare": 1000}
SCALED = (["build:" + k for k in "random sorted reversed pipe pairs few same equal decreasing star skipped".split()] +
          "both thaw read text file dimacs comments bincode narrow convert clone order calculator input_bincode".split() +
          ["path:" + k for k in "identity reverse inner random halves".split()] + ["once:identity", "once:inner"] +
          ["list:starts", "list:ends", "star_path"] +
          ["prepare_line:" + k for k in "identity reverse inner random halves".split()] +
          ["prepare:" + k for k in "line isolated pairs tree oneway".split()])


def scaling(check, part):
    begin = time.time()
    j = Jobs(check)
    factors = (1, 8, 64) if check.thorough() else (1, 16)

    def job(name):
        def f():
            small = SIZES.get(name.split(":")[0], 4000)
            r, base = [], None
            for factor in factors:
                n = small * factor
                args = lambda k: ("scale", name, n, check.seed, k, j.path("%s-%d-%d" % (name, n, k)))
                try:
                    a, _ = j.count(*args(1))
                    b, _ = j.count(*args(3))
                except TooMuch as t:
                    if base is None:
                        return [("error", "%s with size %d takes too long" % (name, n))]
                    a, b = 0, 2 * t.at_least / 3
                x = (b - a) / 2 / n
                base = base or x
                text = "%s: %.1f instructions per item with %d items" % (name, x, n)
                r.append(((name, factor), text))
                if x > 2 * base + 10:
                    r.append(("bad", "the effort grows more than proportionally: %.1f instructions per item with %d items, but %s"
                              % (base, small, text)))
                    break
            return r
        return f
    try:
        together(j, [job(n) for n in SCALED])
    finally:
        j.close(begin)
