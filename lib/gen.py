"""Random policies: modules with te, if and fc files, access vectors, permission macros, modules.conf and a
configuration, together with their reference AST.  Everything derives from one random.Random.
"""
import os
from nodes import Node
from render import S, Layout, Builder
from model import Config, Policy, ABBREV

MODS = ["kernel", "files", "filesystem", "corecommands", "devices", "terminal", "libraries", "selinuxutil", "authlogin",
        "sysnetwork", "userdomain", "corenetwork", "mls", "mcs", "ssh", "ssh_agent", "ssh_keys", "alpha", "alpha_extra",
        "beta", "gamma_one", "gamma_two", "http2", "zeta", "omega", "a1", "add", "x_y_z", "init", "unconfined", "MixedCase"]
LAYERS = ["kernel", "system", "apps", "services", "roles", "admin"]
CLASSES = ["file", "dir", "lnk_file", "chr_file", "blk_file", "sock_file", "fifo_file", "process", "capability",
           "tcp_socket", "udp_socket", "unix_stream_socket", "netlink_route_socket", "netlink_audit_socket", "dbus",
           "filesystem", "fd", "system"]
CLASS_SETS = ["file_class_set", "devfile_class_set", "socket_class_set", "notdevfile_class_set"]
FILEPERMS = ["ioctl", "read", "write", "create", "getattr", "setattr", "lock", "relabelfrom", "relabelto", "append",
             "map", "unlink", "link", "rename", "execute", "mounton", "open", "watch", "quotaon", "audit_access",
             "execmod", "watch_reads"]
DIRPERMS = ["add_name", "remove_name", "reparent", "search", "rmdir"]
FPERMS = ["execute_no_trans", "entrypoint"]
PROCPERMS = ["transition", "signal", "sigchld", "signull", "fork", "setpgid", "getsched"]
SOCKPERMS = ["bind", "connect", "listen", "accept", "getopt", "setopt", "shutdown", "recvfrom", "sendto", "name_bind",
             "name_connect", "nlmsg_read", "nlmsg_write"]
OTHERPERMS = ["associate", "mount", "use", "send_msg", "chown", "dac_override", "status", "net_admin"]
ALLPERMS = FILEPERMS + DIRPERMS + FPERMS + PROCPERMS + SOCKPERMS + OTHERPERMS
# refpolicy flavoured macros; the generator also makes up its own
MACROS = {
    "getattr_file_perms": ["getattr"], "read_file_perms": ["getattr", "open", "read", "lock", "ioctl"],
    "read_inherited_file_perms": ["getattr", "read", "lock", "ioctl"],
    "mmap_read_file_perms": ["getattr", "open", "map", "read", "ioctl"],
    "exec_file_perms": ["getattr", "open", "map", "read", "execute", "ioctl", "execute_no_trans"],
    "append_file_perms": ["getattr", "open", "append", "lock", "ioctl"],
    "write_file_perms": ["getattr", "open", "write", "append", "lock", "ioctl"],
    "rw_file_perms": ["open", "rw_inherited_file_perms"],
    "rw_inherited_file_perms": ["getattr", "read", "write", "append", "ioctl", "lock"],
    "create_file_perms": ["getattr", "create", "open"], "rename_file_perms": ["getattr", "rename"],
    "delete_file_perms": ["getattr", "unlink"],
    "manage_file_perms": ["create", "open", "getattr", "setattr", "read", "write", "append", "rename", "link", "unlink",
                          "ioctl", "lock"],
    "relabel_file_perms": ["getattr", "relabelfrom", "relabelto"],
    "getattr_dir_perms": ["getattr"], "search_dir_perms": ["getattr", "search", "open"],
    "list_dir_perms": ["getattr", "search", "open", "read", "lock", "ioctl"],
    "add_entry_dir_perms": ["getattr", "search", "open", "lock", "ioctl", "write", "add_name"],
    "rw_dir_perms": ["open", "read", "getattr", "lock", "search", "ioctl", "add_name", "remove_name", "write"],
    "create_dir_perms": ["getattr", "create"],
    "manage_dir_perms": ["create", "open", "getattr", "setattr", "read", "write", "link", "rename", "search", "add_name",
                         "remove_name", "reparent", "rmdir", "lock", "ioctl"],
    "read_lnk_file_perms": ["getattr", "read"], "manage_lnk_file_perms": ["create", "getattr", "setattr", "read", "write",
                                                                         "append", "rename", "link", "unlink", "ioctl", "lock"],
    "rw_chr_file_perms": ["getattr", "open", "read", "write", "append", "ioctl", "lock"],
    "rw_term_perms": ["getattr", "open", "read", "write", "append", "ioctl"],
    "rw_inherited_term_perms": ["getattr", "read", "write", "append", "ioctl"],
    "read_blk_file_perms": ["getattr", "open", "read", "lock", "ioctl"],
    "rw_sock_file_perms": ["getattr", "open", "read", "write", "append"],
    "write_sock_file_perms": ["getattr", "write", "open", "append"],
    "rw_fifo_file_perms": ["rw_inherited_fifo_file_perms", "open"],
    "rw_inherited_fifo_file_perms": ["getattr", "read", "write", "append", "ioctl", "lock"],
    "signal_perms": ["sigchld", "signal", "signull"], "client_stream_socket_perms": ["bind", "connect", "getopt"],
    "rw_socket_perms": ["ioctl", "read", "getattr", "write", "setattr", "append", "bind", "connect"],
    "create_socket_perms": ["create", "rw_socket_perms"], "create_stream_socket_perms": ["create_socket_perms", "listen", "accept"],
    "r_netlink_socket_perms": ["create_socket_perms", "nlmsg_read"],
    "mount_fs_perms": ["mount", "getattr"],
}
MISUSE = ["read_fifo_file_perms", "weird_perms", "all_files_perms", "mmap_exec_file_perms"]
UNKNOWN_PERMS = ["raed", "frobnicate", "all_access", "all_", "perms_all"]
UNKNOWN_CLASSES = ["flie", "dbux"]


def family(rng, n):
    """Module names that are related or look so."""
    b = rng.choice(["files", "ssh", "kernel", "alpha", "a1", "x_y_z", "gamma_one", "system", "corenet"])
    h = b.split("_")[0]
    c = [b, b, b + "d", b + "ystem", b + "_foo", b + "_bar", h + "_baz", h, h + "x_foo", b[:-1], "x" + b, "foo_" + b, b + b, h[:-1] + "_foo", h.upper(), "beta", "kernel"]
    return list(dict.fromkeys(m for m in rng.sample(c, len(c)) if m and m[-1] != "_" and m[0] != "_"))[:n]


class World:
    """One policy tree plus the options of one run."""

    def __init__(self):
        self.files = []            # dicts name kind layer mod text root lines
        self.mods = None           # dict or None (no modules.conf)
        self.mods_text = None
        self.classes = None
        self.perms = None
        self.av_text = None
        self.macros = None
        self.spt_text = None
        self.config = Config()
        self.config_text = None

    def policy(self, order=None, context=(), explicit=True):
        """order: file names as analysed (all kinds mixed); default: as stored"""
        fs = self.files if order is None else [next(f for f in self.files if f["name"] == n) for n in order]
        out = []
        for f in fs:
            g = dict(f)
            g["checked"] = f["name"] not in context
            if explicit:                # layers come from directory scans only
                g["layer"] = ""
            out.append(g)
        return Policy(out, mods=self.mods, classes=self.classes, perms=self.perms, permmacros=self.macros, config=self.config)

    def rerender(self, layout):
        """The same statements in another layout (layout: function giving a Layout per file)."""
        w = World()
        w.__dict__.update(self.__dict__)
        w.files = []
        for f in self.files:
            g = dict(f)
            if f["kind"] != "fc":
                b = Builder(layout(f), f["name"])
                g["text"], g["root"] = (b.te_file if f["kind"] == "te" else b.if_file)(f["src"])
            w.files.append(g)
        return w

    def write(self, d, context=()):
        """Writes the tree below d; returns (paths of policy files in order, support args)"""
        paths = []
        for f in self.files:
            base = os.path.join(d, "ctx" if f["name"] in context else "policy", f["layer"])
            os.makedirs(base, exist_ok=True)
            p = os.path.join(base, f["name"])
            with open(p, "w", encoding="latin-1", newline="") as h:
                h.write(f["text"])
            f["path"] = p
            paths.append(p)
        sup = []
        os.makedirs(os.path.join(d, "policy", "flask"), exist_ok=True)
        for name, text in (("modules.conf", self.mods_text), ("flask/access_vectors", self.av_text),
                           ("obj_perm_sets.spt", self.spt_text)):
            if text is not None:
                p = os.path.join(d, "policy", name)
                with open(p, "w", encoding="latin-1", newline="") as h:
                    h.write(text)
                sup.append(p)
        self.conf_path = None
        if self.config_text is not None:
            self.conf_path = os.path.join(d, "selint.conf")
            with open(self.conf_path, "w") as h:
                h.write(self.config_text)
        return paths, sup


class Gen:
    def __init__(self, rng, size=1.0, nmods=None, layout="random", clean=False, features=None, config=True, prefix="", mods=None):
        self.r = rng
        self.size = size
        self.nmods = nmods
        self.layout = layout
        self.clean = clean             # avoid order dependent constructs
        self.f = {"blocks": 1.0, "exc": 0.12, "comments": 1.0, "unknown": 0.1, "fc": 0.6, "calls": 1.0, "req": 1.0,
                  "messy": 1.0, "av": 1.0, "order": 0.3, "ifs": 0.3, "te": 1.0, "templates": 0.3, "tt": 1.0, "other": 1.0, "fclines": 1.0}
        self.f.update(features or {})
        self.want_config = config
        self.mods = mods
        self.prefix = prefix
        self.w = World()
        self.used = set()
        self.used2 = set()
        # now and then something is much larger than usual
        self.big = set()
        if rng.random() < self.f.get("big", 0.1):
            self.big = set(rng.sample(["lists", "names", "depth", "files", "stmts", "types", "flavors"], rng.choice([1, 1, 2, 3])))
        if self.f["blocks"] > 2 and "depth" in self.big:
            self.big -= {"stmts", "files"}
        self.maxdepth = 8 if "depth" in self.big else 3

    # ---------------------------------------------------------------- helpers
    def c(self, seq):
        return self.r.choice(seq)

    def p(self, x):
        return self.r.random() < x

    def n(self, lo, hi):
        return self.r.randint(lo, hi)

    def ll(self, lo, hi):
        """The length of a list."""
        if "lists" in self.big and self.p(0.4):
            return self.n(hi, self.c([hi + 3, 9, 17, 34]) + hi)
        return self.n(lo, hi)

    def some(self, seq, lo, hi):
        k = min(len(seq), self.n(lo, hi))
        return self.r.sample(list(seq), k)

    def uniq(self, name):
        if name in self.used:
            return None
        self.used.add(name)
        return name

    def lay(self):
        return Layout.plain() if self.layout == "plain" else Layout.random(self.r)

    # ---------------------------------------------------------------- world
    def make(self):
        r = self.r
        w = self.w
        nm = self.nmods or self.n(2, 5)
        pool = list(MODS)
        if "names" in self.big:
            k = self.c([14, 15, 16, 30, 31, 32, 40, 62, 63, 64, 100, 127, 128])
            pool = ["a" * k, "a" * k + "b", "a" * (k - 1), "a" * k + "_b", "a" * k + "B", "b" * k] + r.sample(pool, 3)
        if "files" in self.big and not self.nmods:
            nm = self.n(8, 24)
            pool += ["mod%d" % i for i in range(20)]
        mods = [self.prefix + m for m in r.sample(pool, min(nm, len(pool)))]
        # modules with related names are interesting
        if self.p(0.3) and not self.prefix:
            fam = [m for m in MODS if m.startswith("ssh")] if self.p(0.5) else ["kernel", "files", "filesystem"]
            mods = list(dict.fromkeys(mods[: max(1, nm - 2)] + self.some(fam, 1, 3)))
        if self.mods:
            mods = list(self.mods)
        self.base = {m: m for m in mods}
        if self.p(self.f.get("dots", 0.06)) and not self.clean:
            for m in mods:
                if self.p(0.5):
                    self.base[m] = self.c([m + ".x", m + ".mod", m + ".te", m + ".if", m + ".fc", "x." + m, m + ".1.2", m + "-x"])
        self.support(mods)
        self.conf()
        self.mod = {}
        for m in mods:
            self.mod[m] = self.names(m)
        self.all_types = [t for m in mods for t in self.mod[m]["types"]]
        self.all_attrs = [t for m in mods for t in self.mod[m]["attrs"]]
        self.all_roles = [t for m in mods for t in self.mod[m]["roles"]]
        self.all_ars = [t for m in mods for t in self.mod[m]["ars"]]
        self.all_ifs = [t for m in mods for t in self.mod[m]["ifs"]]
        self.all_templates = [t for m in mods for t in self.mod[m]["templates"]]
        self.plan_templates(mods)
        files = []
        for m in mods:
            layer = self.c(LAYERS) if m != "kernel" else "kernel"
            if self.mod[m]["has_if"]:
                files.append(self.if_file(m, layer))
            files.append(self.te_file(m, layer))
            if self.p(self.f["fc"]):
                files.append(self.fc_file(m, layer))
        if self.p(0.15):
            r.shuffle(files)
        w.files = files
        return w

    def support(self, mods):
        w, r = self.w, self.r
        # modules.conf
        if self.p(0.9):
            w.mods = {}
            lines = []
            extra = [m for m in MODS if self.p(0.15)]
            for m in list(dict.fromkeys([self.base[x] if " " not in self.base[x] and self.p(0.9) else x for x in mods if self.p(0.8)] + extra)):
                st = self.c(["base", "module", "module", "module", "off"])
                w.mods[m] = st
                if self.p(0.2):
                    lines.append(self.c(["# comment = x", "", "   ", "\t# x = base", "# Layer: kernel"]))
                lines.append(self.c(["%s = %s", "%s=%s", "%s = %s", "  %s  =\t%s  ", "%s = %s\r"]) % (m, st))
            w.mods_text = "\n".join(lines) + "\n"
        # access vectors
        if self.p(0.85):
            w.classes = {}
            w.perms = set()
            cl = [c for c in CLASSES if self.p(0.9)]
            text = []
            common = {"file": ["ioctl", "read", "write", "create", "getattr", "setattr", "lock", "relabelfrom", "relabelto",
                               "append", "map", "unlink", "link", "rename", "execute", "watch", "open", "mounton"],
                      "socket": ["ioctl", "read", "write", "create", "getattr", "setattr", "bind", "connect", "listen", "accept",
                                 "getopt", "setopt"]}
            for k, v in common.items():
                v = [x for x in v if self.p(0.97)]
                text.append("common %s\n{\n%s\n}\n" % (k, self.av_perms(v)))
                w.perms.update(v)
            for c in cl:
                own = []
                inh = None
                if c.endswith("file") or c == "dir":
                    inh = "file"
                    own = (DIRPERMS if c == "dir" else FPERMS if c == "file" else [])
                elif c.endswith("socket"):
                    inh = "socket"
                    own = SOCKPERMS[6:] if self.p(0.5) else ["name_bind", "name_connect", "recvfrom"]
                elif c == "process":
                    own = PROCPERMS
                else:
                    own = self.some(OTHERPERMS, 1, 4)
                own = [x for x in own if self.p(0.95)]
                w.classes[c] = own
                w.perms.update(own)
                if not own and not inh:
                    own = ["zzz_perm"]
                    w.perms.add("zzz_perm")
                t = "class %s" % c
                if inh:
                    t += self.c(["\n", " "]) + "inherits %s" % inh
                if own:
                    t += "\n{\n%s\n}" % self.av_perms(own)
                text.append(t + "\n")
                if self.p(0.1):
                    text.append("# a comment\n")
            w.av_text = ("#\n# access vectors\n" if self.p(0.3) else "") + "\n".join(text)
        # permission macros
        if self.p(0.85):
            w.macros = {}
            names = [k for k in MACROS if self.p(0.85)]
            r.shuffle(names)
            text = []
            for k in names:
                v = list(MACROS[k])
                if self.p(0.1):
                    v = [x for x in v if self.p(0.8)] or v
                w.macros[k] = v
                text.append(self.spt_def(k, v))
            for i in range(self.n(0, 6)):
                cls = self.c(["file", "dir", "lnk_file", "chr_file", "blk_file", "sock_file", "fifo_file"])
                k = "m%d_%s_perms" % (i, "term" if cls == "chr_file" and self.p(0.5) else cls)
                v = self.some(FILEPERMS[:18] + DIRPERMS + FPERMS, 1, 7)
                if self.p(0.2) and w.macros:
                    v.append(self.c(sorted(w.macros)))
                w.macros[k] = v
                text.append(self.spt_def(k, v))
            for cs in CLASS_SETS:
                if self.p(0.5):
                    text.append("define(`%s',`{ file dir }')\n" % cs)
            if self.p(0.3):
                text.append("define(`deprecated_file_perms',`{ read getattr open } refpolicywarn(`$0 is deprecated')')\n")
            r.shuffle(text)
            w.spt_text = ("# macros\n" if self.p(0.3) else "") + "\n".join(text)

    def av_perms(self, v):
        out = []
        for x in v:
            out.append("\t" + x)
            if self.p(0.05):
                out.append("# comment")
        return "\n".join(out)

    def spt_def(self, k, v):
        b = "{ %s }" % " ".join(v) if len(v) > 1 or self.p(0.5) else v[0]
        return "define(`%s',`%s')\n" % (k, b) if self.p(0.7) else "define(`%s', ` %s ')\n" % (k, b)

    def conf(self):
        r = self.r
        if not self.want_config or self.p(0.25):
            self.w.config = Config()
            return
        c = Config(present=True)
        if self.p(0.7):
            c.assume_users = self.some(["system_u", "user_u", "staff_u", "root"], 1, 3)
        if self.p(0.7):
            c.assume_roles = self.some(["object_r", "system_r", "extra_r"], 1, 3)
        if self.p(0.5):
            c.custom_fc_macros = self.some(["HOME_MACRO", "my_macro", "fcmac", "fcmacro", "my", "HOME"], 1, 3)
        if self.p(0.5):
            c.custom_te_simple_macros = self.some(["simple_macro", "do_things", "enable_mls"], 1, 2)
        if self.p(0.7):
            c.ordering_rules = self.c(["refpolicy", "refpolicy-light", "refpolicy-lax"])
        if self.p(0.6):
            o = ["bool", "class", "role", "attribute_role", "attribute", "type"]
            r.shuffle(o)
            c.ordering_requires = o
        if self.p(0.5):
            c.ordering_requires_same_flavor = self.p(0.6)
        if self.p(0.5):
            c.skip_checking_generated_fcs = self.p(0.5)
        self.w.config = c
        self.w.config_text = c.text(r)

    def names(self, m):
        d = {"types": [], "attrs": [], "roles": [], "ars": [], "bools": [], "ifs": [], "templates": [], "aliases": [],
             "has_if": self.p(0.8)}

        def add(k, cand, prob):
            for x in cand:
                if self.p(prob) and self.uniq(x):
                    d[k].append(x)

        add("types", [m + "_t"], 0.97)
        add("types", [m + s for s in ("_exec_t", "_conf_t", "_var_t", "_tmp_t", "_port_t", "", "_agent_t", "_x")], 0.35)
        if self.p(0.1):
            add("types", ["q%s_%d_t" % (m, i) for i in range(6)], 0.5)
        if "names" in self.big:
            k = self.c([5, 20, 60, 150]) - len(m) % 5
            add("types", [m + "_" + x for x in ("x" * k + "_t", "x" * k + "y_t", "x" * k, "x" * (k - 1), "X" * k + "_t")], 0.7)
        if "types" in self.big:
            add("types", ["q%s_%d_t" % (m, i) for i in range(60)], 0.8)
            add("attrs", ["q%s_%d_attr" % (m, i) for i in range(30)], 0.5)
            add("roles", ["q%s_%d_r" % (m, i) for i in range(20)], 0.5)
        add("attrs", [m + s for s in ("_domain", "_type", "_files")], 0.4)
        if "flavors" in self.big and self.used and self.p(0.7):
            # roles and booleans have name spaces of their own
            for k, x in (("roles", 0.4), ("bools", 0.4)):
                pool = sorted(t for t in self.used if t.endswith(("_t", "_type", "_domain")))
                if pool and self.p(x):
                    y = self.c(pool)
                    if (k, y) not in self.used2:
                        self.used2.add((k, y))
                        d[k].append(y)
        add("roles", [m + "_r"], 0.3)
        add("ars", [m + "_roles"], 0.25)
        add("bools", ["allow_" + m, m + "_enabled"], 0.3)
        add("aliases", [m + s for s in ("_old_t", "_alias_t", "_legacy_t")], 0.3)
        if d["has_if"]:
            add("ifs", [m + s for s in ("_read_conf", "_domtrans", "_manage_var", "_stub", "_filetrans", "_type", "_run",
                                        "_file", "_stub_read", "_admin", "_signal", "_domain", "_role", "_conf_filetrans")], self.f["ifs"])
            add("templates", [m + s for s in ("_template", "_role_template", "_user_template")], self.f["templates"])
            add("templates", [m + s for s in ("_stub", "_more_stub")], self.f["templates"] * 0.15)
            if not d["ifs"] and not d["templates"]:
                d["ifs"].append(m + "_stub")
                self.used.add(m + "_stub")
        return d

    def plan_templates(self, mods):
        """What each template declares: (flavor, pattern); nested calls only to templates later in the list (no cycles)."""
        self.tplan = {}
        ts = [(m, t) for m in mods for t in self.mod[m]["templates"]]
        self.r.shuffle(ts)
        self.torder = [t for _, t in ts]
        self.tcalls = {t: [] for _, t in ts}
        for i, (m, t) in enumerate(ts):
            decls = []
            for k in range(self.n(0, 4)):
                fl = self.c(["type", "type", "type", "attribute", "role", "bool", "attribute_role"])
                suf = {"type": "_t", "attribute": "_attr", "role": "_r", "bool": "_bool", "attribute_role": "_roles"}[fl]
                par = self.c(["$1", "$1", "$1", "$2", "$1_$2", "$1_%s" % m, "%s_$1" % m, "$1$1", "$1_x_$1", "$3_$1"])
                pat = "%s_%s%d%s" % (par, "k" + m[:2], k, suf)
                if pat.startswith("$2") or pat.startswith("$3"):
                    pat = "z" + pat
                decls.append((fl, pat))
            calls = []
            later = ts[i + 1:]
            if later and self.p(0.4):
                for _ in range(self.n(1, 2)):
                    _, u = self.c(later)
                    if not self.may_call(t, u):
                        continue
                    calls.append((u, self.some(["$1", "$2", "$1_n", "n_$2", "fixed", "$1_$2", "$3"], 1, 3)))
            self.tplan[t] = (decls, calls)

    def may_call(self, t, u):
        """Notes that template t calls u, unless some expansion becomes huge (their size is exponential)."""
        self.tcalls[t].append(u)
        cost = {}
        for x in reversed(self.torder):
            cost[x] = 1 + sum(cost[y] for y in self.tcalls[x])
        if max(cost.values()) <= 40:
            return True
        self.tcalls[t].pop()
        return False

    # ---------------------------------------------------------------- names in statements
    def a_type(self, m, par=0.0):
        r = self.r.random()
        if par and self.p(par):
            return self.c(["$1", "$1", "$2", "$1_t", "$2_t", "$1_conf_t"])
        own = self.mod[m]["types"]
        if r < 0.5 and own:
            return self.c(own)
        if r < 0.5 + 0.25 and self.all_types:
            return self.c(self.all_types)
        if r < 0.82 and self.mod[m]["attrs"]:
            return self.c(self.mod[m]["attrs"])
        if r < 0.87 and self.all_attrs:
            return self.c(self.all_attrs)
        if r < 0.89 and self.mod[m]["aliases"]:
            return self.c(self.mod[m]["aliases"])
        if r < 0.97 and own:
            return self.c(own)
        return self.c(["unknown_t", "nosuch_type", "mystery_attr"])

    def types_list(self, m, par=0.0, excl=True):
        k = self.r.random()
        if k < 0.75:
            return [self.a_type(m, par)]
        if k < 0.95 or not excl:
            l = list(dict.fromkeys(self.a_type(m, par) for _ in range(self.ll(2, 3))))
            if excl and self.p(0.4):
                x = self.a_type(m, 0)
                l.append("-" + x)
            return l
        if k < 0.97:
            return ["*"]
        return ["~", self.a_type(m, par)] + ([self.a_type(m, par)] if self.p(0.5) else [])

    def a_role(self, m):
        r = self.r.random()
        if r < 0.4 and self.mod[m]["roles"]:
            return self.c(self.mod[m]["roles"])
        if r < 0.6 and self.all_roles:
            return self.c(self.all_roles)
        if r < 0.7 and self.all_ars:
            return self.c(self.all_ars)
        if r < 0.85:
            return "system_r"
        return self.c(["unknown_r", "extra_r"])

    def classes(self, one=0.75):
        r = self.r.random()
        if self.p(self.f["unknown"] * 0.4):
            l = [self.c(UNKNOWN_CLASSES)]
            if self.p(0.5):
                l = [self.c(CLASSES)] + l
            if self.p(0.3):
                l = l + [self.c(CLASSES)]
            if self.p(0.3):
                l.insert(self.n(0, len(l)), self.c(CLASS_SETS))
            if self.p(0.1):
                l.insert(0, "$1")
            return l
        if r < one:
            return [self.c(CLASSES[:7] * 2 + CLASSES)]
        if r < one + 0.1:
            return [self.c(CLASS_SETS)]
        k = self.ll(2, 3)
        return self.some(CLASSES, k, k)

    def perms(self, cls, par=0):
        r = self.r.random()
        if r < 0.03:
            return ["*"]
        if r < 0.06:
            return ["~"] + self.some(FILEPERMS, 1, 2)
        c0 = cls[0]
        if c0.endswith("file") or c0 == "dir" or c0.endswith("_set"):
            pool = FILEPERMS[:18] + (DIRPERMS if c0 == "dir" else FPERMS if c0 == "file" else [])
        elif c0.endswith("socket"):
            pool = SOCKPERMS + ["read", "write", "create"]
        elif c0 == "process":
            pool = PROCPERMS
        else:
            pool = OTHERPERMS
        k = self.ll(1, 5)
        l = self.some(pool, k, k)
        if self.p(0.3) and self.w.macros:
            stem = "_" + c0 + "_perms"
            fit = [k for k in self.w.macros if k.endswith(stem)]
            if fit and self.p(0.7):
                l = self.some(fit, 1, 2) + (l[:2] if self.p(0.5) else [])
            else:
                l = [self.c(sorted(self.w.macros))] + (l[:1] if self.p(0.4) else [])
        if self.p(0.03):
            l.append(self.c(MISUSE))
        if self.p(self.f["unknown"] * 0.5):
            l.append(self.c(UNKNOWN_PERMS))
        if par and self.p(0.05):
            l.append(self.c(["$2", "$3"]))
        if self.p(0.06):
            l.append(self.c(l))
        if self.p(0.65):
            l.sort()
        return l

    def exc(self):
        """Suppression list of a statement."""
        if not self.p(self.f["exc"]):
            return ()
        from model import ALL_IDS
        k = self.r.random()
        pool = ["C-001", "C-005", "C-007", "W-001", "W-002", "W-003", "W-005", "W-006", "W-010", "E-007", "E-008", "S-001",
                "S-003", "S-009", "S-010", "C-006", "W-011", "E-009", "S-005", "S-004", "W-007", "W-008", "C-004", "E-010"]
        if k < 0.7:
            return tuple(self.some(pool, 1, 2))
        if k < 0.85:
            return tuple(self.some(ALL_IDS, 1, 4))
        if k < 0.93:
            return tuple(self.some(["C-999", "W-1", "E-012", "S-2", "W-0010", "C-0011", "S-0033", "E-0077", "W-00"], 1, 3))
        return tuple(self.some(pool, 6, 12))

    def es(self):
        return {"exc": self.exc(), "exc_style": self.n(0, 15)}

    # ---------------------------------------------------------------- statements
    def st_av(self, m, ctx):
        par = ctx["par"]
        cls = self.classes()
        src = self.types_list(m, par)
        tgt = ["self"] if self.p(0.12) else (list(src) if self.p(0.08) else self.types_list(m, par))
        return S("av", flavor=self.c(["allow"] * 8 + ["auditallow", "dontaudit", "dontaudit", "neverallow"]), src=src, tgt=tgt,
                 cls=cls, perms=self.perms(cls, par), **self.es())

    def st_xav(self, m, ctx):
        k = self.r.random()
        pool = ["0x5401", "0x5402", "SIOCGIFADDR", "35092", "unpriv_sock_ioctls", "0x8910", "1"]
        if k < 0.5:
            perms = [self.c(pool)]
        elif k < 0.8:
            perms = self.some(pool, 2, 4)
        elif k < 0.9:
            perms = ["0x8910", "-", "0x8920"] if self.p(0.4) else [self.c(["$2", "0x1", "A_IOCTL"]), "-", self.c(["$3", "0x1", "B_IOCTL", "$2"])] + \
                ([self.c(["0x0", "0x9000", "ZZ"])] if self.p(0.3) else [])
        else:
            perms = ["~"] + self.some(pool, 1, 2)
        return S("xav", flavor=self.c(["allow", "allow", "auditallow", "dontaudit", "neverallow"]),
                 src=self.types_list(m, ctx["par"]), tgt=["self"] if self.p(0.2) else self.types_list(m, ctx["par"]),
                 cls=[self.c(["file", "tcp_socket", "udp_socket", "chr_file"])], perms=perms, **self.es())

    def st_tt(self, m, ctx):
        fl = self.c(["tt", "tt", "tt", "tm", "tc", "rt"])
        d = dict(flavor=fl, src=self.types_list(m, ctx["par"]), tgt=self.types_list(m, ctx["par"]),
                 cls=self.classes(0.9) if self.p(0.7) else ["process"], **self.es())
        if fl == "rt":
            toks, s = self.c([(["s0"], "s0"), (["s0", "-", "s0", ":", "c0", ".", "c1023"], None), (["mls_systemhigh"], "mls_systemhigh"),
                              (["s15", ":", "c0", ".", "c255"], None)])
            d["dflt"] = s or "".join(toks)
            d["dflt_tokens"] = toks
        else:
            d["dflt"] = self.a_type(m, ctx["par"])
            d["fname"] = self.c(["f.txt", "a-b_c", "x:y"]) if self.p(0.25) and fl == "tt" else None
        return S("tt", **d)

    def st_roletrans(self, m, ctx):
        return S("roletrans", src=[self.a_role(m)], tgt=self.types_list(m, ctx["par"]), cls=self.classes(0.9) if self.p(0.5) else None,
                 dflt=self.a_role(m), **self.es())

    def st_roleallow(self, m, ctx):
        l = [self.a_role(m)] if self.p(0.7) else [self.a_role(m), self.a_role(m)]
        return S("roleallow", src=l, tgt=[self.a_role(m)], **self.es())

    def st_roletypes(self, m, ctx):
        return S("roletypes", name=self.a_role(m), types=self.types_list(m, ctx["par"], excl=False), **self.es())

    def st_typealias(self, m, ctx):
        # aliases are declared once each
        if ctx["al"] and ctx["kind"] == "te":
            a = [ctx["al"].pop()]
            if ctx["al"] and self.p(0.5):
                a.append(ctx["al"].pop())
            return S("typealias", name=self.a_type(m, ctx["par"]), aliases=a, **self.es())
        return self.st_av(m, ctx)

    def st_typeattr(self, m, ctx):
        pool = self.all_attrs + ["unknown_attr"]
        return S("typeattr", name=self.a_type(m, ctx["par"]), attrs=list(dict.fromkeys(self.c(pool) for _ in range(self.ll(1, 2)))), **self.es())

    def st_roleattr(self, m, ctx):
        return S("roleattr", name=self.a_role(m), attrs=[self.c(self.all_ars + ["unknown_roles"])], **self.es())

    def st_permissive(self, m, ctx):
        return S("permissive", name=self.a_type(m, ctx["par"]), **self.es())

    def st_semicolon(self, m, ctx):
        return S("semicolon", **self.es())

    def st_word(self, m, ctx):
        return S("word", name=self.c(["simple_macro", "do_things", "stray", "enable_mls", "stray_word"]), **self.es())

    def st_comment(self, m, ctx):
        from render import a_comment
        return S("comment", text=a_comment(self.r))

    def st_raw(self, m, ctx):
        t = self.a_type(m)
        gc = ["gen_context", "(", "system_u", ":", "object_r", ":", t, ",", "s0", ")"]
        raw = ["system_u", ":", "object_r", ":", t, ":", "s0"]
        return S("raw", toks=self.c([
            ["genfscon", "proc", "/net"] + gc, ["genfscon", "9p", "/x"] + gc, ["sid", "kernel"] + gc,
            ["portcon", "tcp", "80"] + gc, ["portcon", "tcp", "80-90"] + gc, ["portcon", "udp", "1", "-", "2"] + gc,
            ["netifcon", "eth0"] + gc + gc, ["nodecon", "127.0.0.1", "255.255.255.255"] + gc,
            ["nodecon", "::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"] + raw,
            ["fs_use_xattr", "ext4"] + gc + [";"], ["fs_use_trans", "tmpfs"] + gc + [";"], ["fs_use_task", "pipefs"] + raw + [";"],
            ["typebounds", t, self.a_type(m), ";"],
            ["refpolicywarn", "(", "`", "this", "is", "deprecated", "'", ")"],
            ["gen_user", "(", "user_u", ",", ",", "user_r", ",", "s0", ",", "s0", ")"],
            ["gen_user", "(", "user_u", ",", "user", ",", "user_r", ",", "s0", ",", "s0", "-", "s0", ":", "c0", ".", "c3", ")"],
        ]))

    def st_define(self, m, ctx):
        body = self.c([None, None, ["hidden_macro", "(", "$1", ",", "b-c", ")", ";"], ["a", ",", "b"], ["x"],
                       ["{", "one", "two", "}"]])
        return S("define", name=self.c(["my_def", "DEF_A"]), quoted=self.p(0.7), body=body, **self.es())

    def arg(self, m, ctx):
        k = self.r.random()
        if k < 0.62:
            return ("w", self.a_type(m, ctx["par"]))
        if k < 0.66:
            return ("w", self.c(["file", "read", "s0", "alpha", "/etc", "system_r"]))
        if k < 0.70:
            return ("q", self.c(["name.txt", "a", "s0-s0:c1"]))
        if k < 0.80:
            return ("l", list(dict.fromkeys(self.a_type(m, ctx["par"]) for _ in range(self.ll(1, 3)))) + (["-" + self.a_type(m)] if self.p(0.2) else []))
        if k < 0.82:
            return ("~", [self.a_type(m)])
        if k < 0.90:
            return ("b", [self.a_type(m, ctx["par"]) for _ in range(self.n(0, 2))])
        if k < 0.96:
            return ("s", [self.a_type(m, ctx["par"]), self.a_type(m, ctx["par"])] + ([self.a_type(m)] if self.p(0.2) else []))
        if k < 0.98:
            return ("s", [self.a_type(m), "-" + self.a_type(m)])
        if self.p(0.7):
            # something of every flavour before something that begins with a hyphen
            pool = self.c([self.all_roles, self.all_ars, self.all_attrs, self.mod[m]["aliases"], self.mod[m]["bools"], ["system_u", "user_u", "nobody_u"], CLASSES, ["$1"]])
            return ("s", [self.c(pool or ["system_r"]), "-" + self.c([self.a_type(m), "x", "s0"])] + ([self.a_type(m)] if self.p(0.1) else []))
        return ("s", ["s0", "-mcs_systemhigh"])

    def st_call(self, m, ctx):
        k = self.r.random()
        own = self.mod[m]["ifs"]
        if k < 0.35 and self.all_ifs:
            name = self.c(self.all_ifs)
        elif k < 0.5 and own:
            name = self.c(own)
        elif k < 0.62 and self.all_templates:
            return self.template_call(m, ctx)
        elif k < 0.8:
            name = self.c(["domtrans_pattern", "filetrans_pattern", "manage_files_pattern", "domain_auto_transition_pattern",
                           "read_files_pattern", "filetrans_add_pattern", "init_daemon_domain", "ifacemac"])
        else:
            ms = [x for x in (self.w.mods or {"alpha": 1}) if "." not in x and "-" not in x]
            name = self.c(ms or ["alpha"]) + "_" + self.c(["nosuch", "frob", "read_config"])
            if self.p(0.3):
                name = self.c(sorted(ABBREV)) + "_" + self.c(["nosuch", "read"])
            if name in self.used:
                name = "nomod_call"
        args = [self.arg(m, ctx) for _ in range(self.n(0, 3) if self.p(0.3) else self.ll(1, 2))]
        return S("call", name=name, args=args, **self.es())

    def template_call(self, m, ctx):
        if ctx["kind"] == "if" and ctx["def"] == "template":
            later = self.torder[self.torder.index(ctx["name"]) + 1:]      # no cycles
            if not later:
                return self.st_av(m, ctx)
            name = self.c(later)
            if not self.may_call(ctx["name"], name):
                return self.st_av(m, ctx)
        else:
            name = self.c(self.all_templates)
        if self.clean and ctx["kind"] == "if" and ctx["def"] != "template":
            return self.st_av(m, ctx)        # expanded only when the template was read before (known finding)
        if ctx["kind"] == "if":
            # parameters only: what such a call declares is decided where the caller is called
            args = [("w", self.c(["$1", "$2", "$1_x"])) for _ in range(self.n(1, 3))]
            if ctx["def"] == "template":
                args = [("w", self.c(["$1", "$2"])) for _ in range(self.n(1, 3))]
            return S("call", name=name, args=args, **self.es())
        ctx["tc"] += 1
        base = "%s%sx%d" % (self.prefix, m[:3].lower(), ctx["tc"])
        args = [("w", base)] + [("w", self.c(["sub%d" % ctx["tc"], "p%d%s" % (ctx["tc"], m[:2].lower())])) for _ in range(self.n(0, 2))]
        if self.p(0.1):
            args = args[:1] + [("b", [])] + args[2:]
        self.expand_names(name, [a[1] if a[0] == "w" else "" for a in args])
        return S("call", name=name, args=args, **self.es())

    def expand_names(self, name, args, depth=0):
        from model import substitute
        decls, calls = self.tplan[name]
        for u, a in calls:
            if depth < 6:
                self.expand_names(u, [substitute(x, args) for x in a], depth + 1)
        for fl, pat in decls:
            x = substitute(pat, args)
            if "$" not in x and not x.startswith("_"):       # a name cannot start with _
                self.used.add(x)
                {"type": self.all_types, "attribute": self.all_attrs, "role": self.all_roles, "attribute_role": self.all_ars,
                 "bool": []}[fl].append(x)

    # ---- blocks
    def st_optional(self, m, ctx):
        return S("optional", body=self.body(m, ctx, 0 if self.p(0.1) else 1, 3, empty_ok=self.p(0.5)), els=None, **self.es()) if self.p(0.8) else \
            S("optional", body=self.body(m, ctx, 1, 2), els=self.body(m, ctx, 1, 2), **self.es())

    def reqdecls(self, m, ctx, lo, hi):
        out = []
        for _ in range(self.ll(lo, hi)):
            k = self.r.random()
            if "flavors" in self.big and self.p(0.25):
                # required as something else than it is
                fl = self.c(["type", "attribute", "role", "attribute_role", "bool"])
                names = self.some((self.all_types + self.all_attrs + self.all_roles + self.all_ars) or ["unknown_t"], 1, 2)
            elif k < 0.02 and self.all_ifs:
                # a name that an interface has
                fl, names = self.c(["type", "attribute", "role", "attribute_role", "bool"]), [self.c(self.all_ifs)]
            elif k < 0.45:
                pool = (self.mod[m]["types"] if self.p(0.6) else self.all_types) or ["unknown_t"]
                q = self.ll(1, 3)
                fl, names = "type", self.some(pool, q if q > 3 else 1, q)
                if self.p(0.1):
                    names = names + [self.c(["$1_t", "unknown_t", "nosuch_type"])]
            elif k < 0.65:
                fl, names = "attribute", self.some(self.all_attrs or ["unknown_attr"], 1, 2)
            elif k < 0.75:
                fl, names = "role", self.some(self.all_roles + ["system_r"], 1, 2)
            elif k < 0.82:
                fl, names = "attribute_role", self.some(self.all_ars or ["unknown_roles"], 1, 2)
            elif k < 0.88:
                fl, names = "bool", self.some([b for x in self.mod.values() for b in x["bools"]] or ["some_bool"], 1, 2)
            else:
                out.append(S("reqdecl", flavor="class", names=[self.c(CLASSES)], perms=self.some(FILEPERMS, 1, 3), braces=self.p(0.7), **self.es()))
                if len(out[-1].perms) > 1:
                    out[-1].braces = True
                if self.p(0.7):
                    out[-1].perms.sort()
                continue
            e = self.es()
            if len(names) > 1:
                e["exc"] = ()
            out.append(S("reqdecl", flavor=fl, names=names, **e))
        if self.p(0.5):
            order = self.w.config.req_order if self.w.config.present else ["bool", "class", "role", "attribute_role", "attribute", "type"]
            out.sort(key=lambda s: (order.index(s.flavor), s.names))
            for s in out:
                s.names.sort()
        if self.p(0.05):
            out.insert(self.n(0, len(out)), S("comment", text="# required"))
        return out

    def reqbody(self, m, ctx):
        b = self.reqdecls(m, ctx, 1, 4)
        if self.p(0.06):
            q = self.p(0.7)
            b.insert(self.n(0, len(b)), S("reqifdef", kw=self.c(["ifdef", "ifndef"]), name="enable_mcs", quoted=q, body=self.reqdecls(m, ctx, 1, 2)))
        if self.p(0.04):
            b = [S("comment", text="# nothing required")]
        return b

    def st_genreq(self, m, ctx):
        return S("genreq", quoted=self.p(0.85), body=self.reqbody(m, ctx), **self.es())

    def st_require(self, m, ctx):
        return S("require", body=self.reqbody(m, ctx), **self.es())

    def m4args(self, m, ctx, n):
        out = []
        for _ in range(n):
            k = self.r.random()
            if k < 0.1:
                out.append(None)
            elif k < 0.2:
                out.append([])
            elif k < 0.3:
                out.append(("word", self.c(["alpha", "true", "simple_macro"])))
            else:
                out.append(self.body(m, ctx, 1, 2))
        return out

    def st_ifdef(self, m, ctx):
        a = self.m4args(m, ctx, self.n(1, 2))
        if isinstance(a[0], tuple):
            a[0] = self.body(m, ctx, 1, 2)
        return S("ifdef", kw=self.c(["ifdef", "ifndef"]), name=self.c(["distro_debian", "init_systemd", "hide_broken"]), args=a)

    def st_ifelse(self, m, ctx):
        n = self.n(3, 5)
        w = lambda: [S("word", name=self.c(["$1", "alpha", "system", "strict", "stray"]))] if self.p(0.8) else ("word", "alpha")
        args = []
        for i in range(n):
            if i % 3 in (0, 1) and i != n - 1:
                args.append(w())
            else:
                args.append(self.body(m, ctx, 1, 2) if self.p(0.8) else [S("word", name="stray")])
        return S("ifelse", args=args)

    def cond(self, m):
        b = self.mod[m]["bools"] or ["some_bool"]
        return self.c([[self.c(b)], ["!", self.c(b)], [self.c(b), "&&", "other_bool"], ["(", self.c(b), "||", "other_bool", ")"],
                       [self.c(b), "==", "other_bool"], [self.c(b), "^", "!", "other_bool"]])

    def st_tunable(self, m, ctx):
        return S("tunable", quoted=self.p(0.8), cond=self.cond(m), args=[self.body(m, ctx, 1, 2)] + ([self.body(m, ctx, 1, 2)] if self.p(0.3) else []))

    def st_boolean(self, m, ctx):
        return S("boolean", cond=self.cond(m), body=self.body(m, ctx, 1, 2), els=self.body(m, ctx, 1, 2) if self.p(0.3) else None)

    def st_userdebug(self, m, ctx):
        return S("userdebug", body=self.body(m, ctx, 1, 2))

    def st_decl(self, m, ctx):
        return self.local_decl(m, ctx)

    def local_decl(self, m, ctx):
        """A declaration inside an interface (S-005) or a made up one in a te file."""
        ctx["dc"] += 1
        nm = "%sloc_%s%d" % (self.prefix, m, ctx["dc"])
        if ctx["kind"] == "if" and ctx["def"] == "template":
            return self.st_av(m, ctx)           # template declarations follow the plan
        if ctx["kind"] == "if":
            nm = "$1_" + nm if self.p(0.4) else nm
        fl = self.c(["type", "attribute", "bool", "role"])
        nm += {"type": "_t", "attribute": "_attr", "bool": "", "role": "_r"}[fl]
        if "$" not in nm and not self.uniq(nm):
            return self.st_av(m, ctx)
        return S("decl", flavor=fl, name=nm, attrs=[self.c(self.all_attrs)] if fl == "type" and self.all_attrs and self.p(0.4) else [], **self.es())

    def body(self, m, ctx, lo, hi, empty_ok=False):
        ctx = dict(ctx)
        ctx["depth"] += 1
        n = self.n(lo, hi)
        if n == 0 and not empty_ok:
            n = 1
        out = [self.stmt(m, ctx) for _ in range(n)]
        # nested bodies share counters with the file
        return out

    TE_W = [("av", 30), ("xav", 3), ("call", 22), ("tt", 5), ("roletrans", 2), ("roleallow", 2), ("roletypes", 3), ("typealias", 2),
            ("typeattr", 4), ("roleattr", 2), ("permissive", 1), ("semicolon", 2), ("word", 2), ("raw", 2), ("define", 1), ("optional", 7),
            ("genreq", 3), ("require", 2), ("ifdef", 3), ("ifelse", 1), ("tunable", 2), ("boolean", 1), ("userdebug", 1), ("decl", 2),
            ("comment", 1)]
    BLOCKS = {"optional", "ifdef", "ifelse", "tunable", "boolean", "userdebug"}

    def stmt(self, m, ctx):
        ws = []
        for k, x in self.TE_W:
            if k in self.BLOCKS and ctx["depth"] >= self.maxdepth:
                continue
            if k in self.BLOCKS:
                x *= self.f["blocks"] * (3 if self.maxdepth > 3 else 1)
            if k in ("genreq", "require"):
                x *= self.f["req"]
            if k == "call":
                x *= self.f["calls"]
            if k == "av":
                x *= self.f["av"]
            if k in ("tt", "roletrans"):
                x *= self.f["tt"]
            if k in ("roleallow", "roletypes", "typealias", "typeattr", "roleattr", "permissive"):
                x *= self.f["other"]
            if k in ("semicolon", "word", "raw", "define", "xav"):
                x *= self.f["messy"]
            if k in ctx.get("skip", ()):
                continue
            ws.append((k, x))
        t = self.r.random() * sum(x for _, x in ws)
        for k, x in ws:
            t -= x
            if t <= 0:
                break
        return getattr(self, "st_" + k)(m, ctx)

    # ---------------------------------------------------------------- files
    def decls(self, m):
        out = []
        d = self.mod[m]
        al = list(d["aliases"])
        for a in d["attrs"]:
            out.append(S("decl", flavor="attribute", name=a, attrs=[], **self.es()))
        for t in d["types"]:
            s = S("decl", flavor="type", name=t, attrs=[self.c(self.all_attrs) for _ in range(self.n(1, 2))] if self.all_attrs and self.p(0.3) else [], **self.es())
            if al and self.p(0.2):
                s.aliases = [al.pop()]
                if al and self.p(0.3):
                    s.aliases.append(al.pop())
            out.append(s)
        for x in d["roles"]:
            out.append(S("decl", flavor="role", name=x, attrs=[], **self.es()))
        for x in d["ars"]:
            out.append(S("decl", flavor="attribute_role", name=x, attrs=[], **self.es()))
        for x in d["bools"]:
            if self.p(0.5):
                out.append(S("boolmacro", tunable=self.p(0.5), quoted=self.p(0.5), name=x, val=self.c(["true", "false"]), **self.es()))
            else:
                out.append(S("decl", flavor="bool", name=x, attrs=[], **self.es()))
        if self.p(0.3):
            self.r.shuffle(out)
        if self.p(0.04):
            out.append(S("classdecl", name=self.c(CLASSES), perms=self.some(FILEPERMS, 1, 3), braces=True, **self.es()))
        if self.p(0.05) and self.all_ifs:
            x = self.c(self.all_ifs)
            if x not in self.mod[m]["types"]:
                out.append(S("decl", flavor="attribute", name=x, attrs=[], **self.es()))
        return out, al

    def te_file(self, m, layer):
        r = self.r
        lay = self.lay()
        fn = self.base[m] + ".te"
        b = Builder(lay, fn)
        decls, al = self.decls(m)
        ctx = {"kind": "te", "def": None, "par": 0.0, "depth": 0, "al": al, "tc": 0, "dc": 0}
        body = [self.stmt(m, ctx) for _ in range(max(1, int(self.n(1, 18) * self.size * self.f["te"] * (self.n(2, 8) if "stmts" in self.big else 1))))]
        if self.p(self.f["order"]):
            # mostly ordered files make the ordering check discriminating
            def key(s):
                src = getattr(s, "src", None) or ([a[1] if isinstance(a[1], str) else (a[1] or ["z"])[0] for a in s.args[:1]] if s.k == "call" and s.args else ["zz"])
                return (str(src[0] if src else "z"), {"av": 0, "xav": 0, "tt": 1, "call": 2}.get(s.k, 3), str(getattr(s, "name", "")))
            body.sort(key=key)
            for _ in range(self.n(0, 3)):
                i, j = self.n(0, len(body) - 1), self.n(0, len(body) - 1)
                body[i], body[j] = body[j], body[i]
        if self.p(0.15):
            k = self.n(0, len(decls))
            body = body[: len(body) // 2] + decls[k:] + body[len(body) // 2:]
            decls = decls[:k]
        hdr = m if self.p(0.93) else self.c(["other", m + "2", m.upper()])
        src = {"lead": [self.c(["# policy", "## <summary>x</summary>", "########"]) for _ in range(self.n(0, 2))] if self.p(0.3) else [],
                                "bare": self.p(0.12), "header": hdr, "version": self.c(["1.0", "1.0.0", "2.13", "1"]), "body": decls + body}
        text, root = b.te_file(src)
        return {"name": fn, "kind": "te", "mod": fn[:-3], "layer": layer, "text": text, "root": root, "src": src}

    def if_file(self, m, layer):
        fn = self.base[m] + ".if"
        b = Builder(self.lay(), fn)
        d = self.mod[m]
        items = []
        defs = [("interface", x) for x in d["ifs"]] + [("template", x) for x in d["templates"]]
        self.r.shuffle(defs)
        ctx0 = {"kind": "if", "al": [], "tc": 0, "dc": 0}
        for i, (kind, nm) in enumerate(defs):
            if self.p(0.75):
                for _ in range(self.n(1, 3)):
                    items.append(S("comment", text=self.c(["## <summary>x</summary>", "#", "########################################", "# foo"])))
            ctx = dict(ctx0, **{"def": kind, "name": nm, "par": 0.35, "depth": 1})
            items.append(S(kind, kind=kind, name=nm, body=self.def_body(m, ctx, kind, nm), **self.es()))
            items[-1].k = "def"
            ctx0["dc"] = ctx["dc"]
        if self.p(0.2):
            items.append(S("comment", text="# end"))
        src = {"items": items}
        text, root = b.if_file(src)
        return {"name": fn, "kind": "if", "mod": fn[:-3], "layer": layer, "text": text, "root": root, "src": src}

    def def_body(self, m, ctx, kind, nm):
        body = []
        if kind == "template":
            for fl, pat in self.tplan[nm][0]:
                if fl == "bool" and self.p(0.5):
                    body.append(S("boolmacro", tunable=True, quoted=self.p(0.5), name=pat, val="false", **self.es()))
                elif fl == "bool":
                    body.append(S("decl", flavor="bool", name=pat, attrs=[], **self.es()))
                else:
                    body.append(S("decl", flavor=fl, name=pat, attrs=[self.c(self.all_attrs)] if fl == "type" and self.all_attrs and self.p(0.3) else [], **self.es()))
            for u, a in self.tplan[nm][1]:
                body.append(S("call", name=u, args=[("w", x) for x in a], **self.es()))
        k = self.r.random()
        if k < 0.06 and not body:
            return []
        stm = []
        n = self.n(1, 5) if "stmts" not in self.big else self.n(3, 25)
        for _ in range(n):
            q = self.r.random()
            if q < 0.05 and kind == "interface":
                stm.append(S("roletypes", name=self.c(["$2", "system_r"]), types=[self.c(["$1", "$1_t"] + self.all_types)]))
            elif q < 0.08:
                stm.append(S("av", flavor="allow", src=["$1"], tgt=[self.a_type(m)], cls=["filesystem"], perms=["associate"]))
            else:
                sk = dict(ctx)
                stm.append(self.stmt(m, sk))
                ctx["dc"] = sk["dc"]
        # usually require what is used
        if self.p(0.85):
            used = {}
            self.collect(stm, used)
            req = []
            for fl in ("attribute", "attribute_role", "role", "type"):
                pool = {"attribute": self.all_attrs, "attribute_role": self.all_ars, "role": self.all_roles, "type": self.all_types}[fl]
                names = [x for x in used if x in pool and self.p(0.85)]
                if self.p(0.12) and pool:
                    names.append(self.c(pool))
                names = list(dict.fromkeys(names))
                if names:
                    if self.p(0.7):
                        names.sort()
                    if self.p(0.4):
                        req += [S("reqdecl", flavor=fl, names=[x], **self.es()) for x in names]
                    else:
                        req.append(S("reqdecl", flavor=fl, names=names))
            if self.p(0.2):
                ps = self.some(FILEPERMS, 1, 3)
                req.append(S("reqdecl", flavor="class", names=[self.c(CLASSES)], perms=ps, braces=True))
            if not req:
                req = self.reqdecls(m, ctx, 1, 2)
            g = S("genreq" if self.p(0.9) else "require", quoted=self.p(0.9), body=req, **self.es())
            if self.p(0.9):
                stm = [g] + stm
            else:
                stm.insert(self.n(0, len(stm)), g)
        if kind == "template" and self.p(0.5):
            return stm + body
        return body + stm

    def collect(self, stm, used):
        for s in stm:
            for a in ("src", "tgt", "types", "attrs"):
                for x in getattr(s, a, None) or []:
                    used[x.lstrip("-")] = 1
            for a in ("dflt", "name"):
                x = getattr(s, a, None)
                if x and s.k in ("tt", "roletrans", "roletypes", "typeattr", "roleattr", "permissive", "typealias"):
                    used[x] = 1
            for x in getattr(s, "args", None) or []:
                if isinstance(x, tuple) and s.k == "call":
                    for y in (x[1] if isinstance(x[1], list) else [x[1]]):
                        used[y.lstrip("-")] = 1
                elif isinstance(x, list):
                    self.collect(x, used)
            for b in (getattr(s, "body", None), getattr(s, "els", None)):
                if isinstance(b, list) and b and isinstance(b[0], S):
                    self.collect(b, used)

    # ---- file contexts
    def fc_line(self, m):
        k = self.r.random()
        if k < 0.14:
            return {"k": "skip", "text": self.c(["", "#comment", "# /foo -- gen_context(bad", "#", "ifdef(`distro_x', `", "ifndef(`distro_y',`",
                                                 "')", "', `", "',`", "') dnl end", "ifdef(`x',`"])}
        if k < 0.18 and self.w.config.custom_fc_macros:
            n = self.c(self.w.config.custom_fc_macros)
            return {"k": "custom", "macro": n, "text": "%s(%s)" % (n, self.c(["", "a, b", "/x -- gen_context(y)"]))}
        if k < 0.30:
            t = self.c([
                "/only/path", "/p --", "/p -x1 system_u:object_r:a_t", "/p -- system_u:object_r", "/p -- gen_context(system_u:object_r:a_t",
                "/p -- gen_context(system_u:object_r:a_t,s0", "/p gen_context()", "/p -- gen_context(system_u:object_r,s0)",
                "/p system_u:object_r:a_t:s0:c1", "OTHER_MACRO(/foo)", "fcmacx(/foo)", "fcma(x)", "my_(/x)", "HOME_MACRO (/x)", "my_macro", "fcmac", "a", "/", "ab", "x", "')x", "' ,", "if", "/p -- ", "/p -d", "/p (system_u:object_r:a_t)", "notmacro(a,b)",
                "/p -dd gen_context(system_u:object_r:a_t,s0)", "/p -- gen_context(system_u:object_r:a_t, s0, c0", "/p\t--\tsystem_u"])
            if t == "')x":                  # taken for the end of a block
                return {"k": "skip", "text": t}
            if t[0] != "/" and "(" in t and " (" not in t:
                return {"k": "custom", "macro": t[:t.index("(")], "text": t}
            return {"k": "bad", "text": t}
        path = "".join(self.c(["/", "/etc", "/usr", "\\.conf", "/lib(/.*)?", "/[^/]*", "/a", ".*", ".", "+", "*", "\\.", "[0-9]+", "(x|y)", "/b-c_d",
                               "/[[:alnum:]]", "\\[", "\\+", "?", "/\\.d", "(/.*)?", ".+", "[.*]", "[a\\].]"]) for _ in range(self.n(1, 5)))
        if not path.startswith("/"):
            path = "/" + path
        obj = self.c([None, None, "--", "-d", "-l", "-c", "-b", "-s", "-p"])
        if self.p(0.05):
            ctx, gen, t = None, False, "<<none>>"
        else:
            typ = self.c(self.mod[m]["types"] + self.all_types + ["unknown_t"]) if self.p(0.8) else self.c(self.mod[m]["types"] or ["unknown_t"])
            user = self.c(["system_u", "system_u", "user_u", "nobody_u", "root"])
            role = self.c(["object_r", "object_r", "system_r", "bad_r"] + self.all_roles[:1])
            gen = self.p(0.8)
            if gen:
                rng = self.c([None, "s0", "s0", "s0 - mls_systemhigh", "mls_systemhigh", "s0,c1"])
                sep = self.c([",", ", ", ",  ", ",\t"])
                t = "gen_context(%s:%s:%s" % (user, role, typ)
                if rng:
                    t += sep + (rng if "," not in rng else rng.replace(",", sep))
                    if "," in rng:
                        rng = rng.replace(",", ":")
                t += ")"
                if self.p(0.1):
                    t += self.c([" ", "\t", " # comment"])
            else:
                rng = self.c([None, "s0"])
                t = "%s:%s:%s%s" % (user, role, typ, ":" + rng if rng else "")
            ctx = (user, role, typ, rng)
        ws = lambda: self.c(["\t", " ", "\t\t", "   "])
        return {"k": "entry", "path": path, "obj": obj, "ctx": ctx, "gen": gen,
                "text": path + ws() + ((obj + ws()) if obj else "") + t}

    def fc_file(self, m, layer):
        fn = self.base[m] + ".fc"
        if self.p(0.1):
            fn = self.c(["base.fc", "all_mods.fc", m + ".mod.fc"])
            if not self.uniq("file:" + fn):
                fn = self.base[m] + ".fc"
        lines = [self.fc_line(m) for _ in range(max(1, int(self.n(1, 14) * self.size * self.f["fclines"] * (self.n(2, 8) if "stmts" in self.big else 1))))]
        eol = "\r\n" if self.p(0.05) else "\n"
        if eol == "\r\n":             # blank lines of that kind are a documented TODO of the tool
            lines = [l for l in lines if l["text"]] or [{"k": "skip", "text": "# x"}]
        text = eol.join(l["text"] for l in lines) + (eol if self.p(0.93) or len(lines[-1]["text"]) < 2 else "")
        return {"name": fn, "kind": "fc", "mod": fn[:-3], "layer": layer, "text": text, "root": Node("FILE", 0), "lines": lines}
