"""C39: the data of tracing records.  A schema with all kinds of tables goes
through the tree's traits generator; a program compiled from the result builds
records of every table from every combination of boundary values, and what can
be read back (tuple, tag, name, severity, text, JSON) is compared with what was
put in.  Schemas the generator must refuse are enumerated as well."""
import itertools
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
sys.path.insert(0, os.path.join(VERIF, 'harness', 'common'))
import build  # noqa: E402
import mcpy  # noqa: E402
from mcpy import scenario  # noqa: E402

OUT = os.path.join(build.B, 'c39')
GENERATOR = os.path.join(build.BIN, 'traits_gen')
INCLUDE = 'include "fcp/tracing/tracing_schema_common.fbs";\n'

INT = {'byte': 8, 'short': 16, 'int': 32, 'long': 64}
CPP = {'byte': 'int8_t', 'ubyte': 'uint8_t', 'bool': 'bool', 'short': 'int16_t', 'ushort': 'uint16_t',
       'int': 'int32_t', 'uint': 'uint32_t', 'float': 'float', 'long': 'int64_t', 'ulong': 'uint64_t',
       'double': 'double', 'string': 'std::string'}
TYPES = ['byte', 'ubyte', 'bool', 'short', 'ushort', 'int', 'uint', 'float', 'long', 'ulong', 'double',
         'string']
COLORS = ['Red', 'Green', 'Blue']
VALUES = {'bool': [True, False], 'float': [0.5, -2.25, 0.0], 'double': [0.125, -1024.5, 0.0],
          'string': ['', 'plain text', 'a"b\\c', 'l1\nl2\t', 'nul\0inside', 'grüß'],
          'Color': [1, 0, 2]}
for _t, _b in INT.items():
    VALUES[_t] = [7, -(1 << (_b - 1)), (1 << (_b - 1)) - 1, 0]
    VALUES['u' + _t] = [7, (1 << _b) - 1, 0]


class Table:
    def __init__(self, name, fields, attrs=(), ns='', ids=None, deprecated=()):
        self.name, self.fields, self.attrs, self.ns = name, fields, list(attrs), ns
        self.ids, self.deprecated = ids, set(deprecated)

    def fbs(self):
        s = 'table %s (%s) {\n' % (self.name, ', '.join(['tag: "%s"' % self.tag] + self.attrs))
        for i, (n, t) in enumerate(self.fields):
            a = []
            if self.ids:
                a.append('id: %d' % self.ids[i])
            if n in self.deprecated:
                a.append('deprecated')
            s += '  %s: %s%s;\n' % (n, t, ' (%s)' % ', '.join(a) if a else '')
        return s + '}\n'

    @property
    def full(self):
        return (self.ns.replace('.', '::') + '::' if self.ns else '') + self.name

    def args(self):
        """Fields in the order in which they are passed."""
        order = range(len(self.fields))
        if self.ids:
            order = sorted(order, key=lambda i: self.ids[i])
        return [self.fields[i] for i in order if self.fields[i][0] not in self.deprecated]


def tables():
    out = []
    for t in TYPES + ['Color']:
        out.append(Table('One_' + t, [('value', t)]))
    few = ['byte', 'bool', 'ulong', 'double', 'string', 'Color']
    for a, b in itertools.product(few, few):
        out.append(Table('Two_%s_%s' % (a, b), [('zz', a), ('aa', b)]))
    three = [('zebra', 'int'), ('mouse', 'string'), ('ape', 'bool')]
    for p in itertools.permutations(range(3)):
        out.append(Table('Ids_%d%d%d' % p, three, ids=p))
        out.append(Table('IdsD_%d%d%d' % p, three, ids=p, deprecated=['mouse']))
    for k in range(1, 4):
        for d in itertools.combinations(['zebra', 'mouse', 'ape'], k):
            out.append(Table('Dep_' + '_'.join(d), three, deprecated=d))
    for attrs in (['warning'], ['error'], ['span'], ['span', 'warning'], ['error', 'span']):
        out.append(Table('Attr_' + '_'.join(attrs), [('value', 'int'), ('text', 'string')], attrs))
    out.append(Table('NoFields', []))
    out.append(Table('NoFieldsSpan', [], ['span']))
    out.append(Table('Strings', [('s1', 'string'), ('s2', 'string'), ('s3', 'string')]))
    out.append(Table('Inner', [('value', 'int'), ('color', 'Color')], ns='outer'))
    out.append(Table('Deep', [('text', 'string'), ('value', 'int')], ['warning', 'span'], ns='outer.inner'))
    for i, t in enumerate(out):
        t.tag = 'T%03d' % i
    return out


TABLES = tables()


def schema_text():
    s = INCLUDE + 'enum Color : byte { Red = 0, Green = 1, Blue = 2 }\n'
    s += 'struct Skipped { x: int; y: int; }\n'
    ns = ''
    for t in TABLES:
        if t.ns != ns:
            ns = t.ns
            s += 'namespace %s;\n' % ns
            if ns == 'outer':
                s += 'enum Color : byte { Red = 0, Green = 1, Blue = 2 }\n'
        s += t.fbs()
    return s


def severity(t):
    return 'error' if 'error' in t.attrs else 'warning' if 'warning' in t.attrs else 'info'


DRIVER = r'''
#include "tracing_schema.h"
#include "fcp/tracing/tracing_span.h"
#include <iostream>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>
using namespace fcp;
static std::string Hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string o = "x";
  for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
  return o;
}
static std::string UnHex(const std::string& s) {
  std::string o;
  for (size_t i = 1; i + 1 < s.size(); i += 2) o += (char)std::stoi(s.substr(i, 2), nullptr, 16);
  return o;
}
static std::istream* in = &std::cin;
template <class T> T Get() {
  std::string s;
  *in >> s;
  if constexpr (std::is_same_v<T, std::string>) return UnHex(s);
  else if constexpr (std::is_floating_point_v<T>) return (T)std::stod(s);
  else if constexpr (std::is_enum_v<T>) return (T)std::stoll(s);
  else if constexpr (std::is_unsigned_v<T>) return (T)std::stoull(s);
  else return (T)std::stoll(s);
}
template <class T> std::string Show(const T& v) {
  if constexpr (std::is_same_v<T, std::string>) return Hex(v);
  else if constexpr (std::is_enum_v<T>) return std::to_string((long long)v);
  else if constexpr (std::is_floating_point_v<T>) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
  else return std::to_string(v);
}
template <class Table> void Report(flatbuffers::DetachedBuffer buf, bool json) {
  using Tr = TracingTraits<Table>;
  auto t = Tr::MakeTuple(flatbuffers::GetRoot<Table>(buf.data()));
  std::string vals;
  std::apply([&](const auto&... v) { ((vals += Show(v) + " "), ...); }, t);
  TracingTag tag = *TracingTag::FromFlatbuf(buf);
  const TracingTraitsBase* r = TracingTraitsBase::Lookup(tag);
  Tr tr;
  auto sev = [](TracingSeverity s) {
    return s == TracingSeverity::kInfo ? "info" : s == TracingSeverity::kWarning ? "warning" : "error";
  };
  std::cout << "tuple " << vals << "| tag " << tag.str() << " " << (Tr::kTag == tag ? "same" : "other")
            << " | name " << tr.Name() << " " << r->Name() << " | severity " << sev(tr.Severity()) << " "
            << sev(r->Severity()) << " " << sev(Tr::kSeverity) << " "
            << TracingTraitsBase::SeverityString(tr.Severity()) << " | span " << (Tr::kIsSpan ? "yes" : "no")
            << " | text " << Hex(tr.TextFormat(buf)) << " " << Hex(r->TextFormat(buf)) << " | json "
            << (json ? Hex(r->JsonStringFormat(buf.data())) : "x") << std::endl;
}
%(functions)s
int main() {
  std::string cmd;
  while (std::cin >> cmd) {
    if (cmd == "lookup") {
      std::string t;
      std::cin >> t;
      char c[5] = {t[0], t[1], t[2], t[3], 0};
      const TracingTraitsBase* r = TracingTraitsBase::Lookup(TracingTag(c));
      flatbuffers::FlatBufferBuilder b;
      b.Finish(b.CreateString("x"), "XXXX");
      flatbuffers::DetachedBuffer d = b.Release();
      bool unknown = std::string(r->Name()) == "?Unknown?";
      std::cout << r->Name() << " " << (unknown ? r->TextFormat(d).size() : 0) << std::endl;
      continue;
    }
    bool json = cmd == "json";
    int k;
    std::cin >> k;
    switch (k) {
%(cases)s
    }
  }
}
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


PREPARED = None


def prepare():
    """Generates and compiles; None if all went well, else what went wrong."""
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT)
    fbs = os.path.join(OUT, 'tracing_schema.fbs')
    open(fbs, 'w').write(schema_text())
    args = '--gen-object-api --gen-generated --reflect-names --bfbs-comments --keep-prefix'.split()
    for mode in (['-c', '--reflect-types'], ['-b', '--schema']):
        r = run(['flatc'] + mode + args + ['-I', build.SRC, '-o', OUT, fbs], cwd=build.SRC)
        if r.returncode:
            raise mcpy.Internal('flatc: ' + r.stdout)
    with open(os.path.join(OUT, 'tracing_schema.h'), 'w') as f:
        r = subprocess.run([GENERATOR, 'tracing_schema_generated.h', os.path.join(OUT, 'tracing_schema.bfbs'),
                            fbs], stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return 'the generator refuses a good schema: ' + r.stderr[:300]
    funcs, cases = [], []
    for i, t in enumerate(TABLES):
        args = []
        body = ''
        for j, (n, ty) in enumerate(t.args()):
            c = CPP.get(ty) or ((t.ns.split('.')[0] + '::' if t.ns else '') + ty)
            body += '  auto a%d = Get<%s>();\n' % (j, c)
            args.append('a%d' % j)
        funcs.append('static void F%d(bool json) {\n%s  Report<%s>(tracing_internal::BuildFlatBuffer<%s>(%s), json);\n}\n'
                     % (i, body, t.full, t.full, ', '.join(args)))
        cases.append('      case %d: F%d(json); break;\n' % (i, i))
    src = os.path.join(OUT, 'driver.cc')
    open(src, 'w').write(DRIVER % dict(functions=''.join(funcs), cases=''.join(cases)))
    flags = build.FLAVORS['st']['flags'].replace('-O1', '-O0').split()
    inc = ['-I' + d for d in [OUT] + build.FLAVORS['st']['inc']]
    obj = os.path.join(OUT, 'driver.o')
    one = os.path.join(OUT, 'header.cc')
    open(one, 'w').write('#include "tracing_schema.h"\n')
    r = run(['ccache', 'g++'] + flags + inc + ['-c', src, '-o', obj])
    if r.returncode:
        return 'the generated code does not compile: ' + r.stdout[-1500:]
    exe = os.path.join(OUT, 'driver')
    ninja = open(os.path.join(build.B, 'build.ninja')).read()
    m = re.search(r'build \S*/bin/c39_text: link.*\n(?:  .*\n)*?  syslibs = (.*)\n', ninja)
    syslibs = m.group(1).split()
    libs = [os.path.join(build.OBJ, 'st', l) for l in ('libbase.a', 'libprotos.a')]
    if os.environ.get('MC_NOT_BUILT'):
        # the rest of the tree does not compile with the generator's output:
        # take just what the records need
        libs = []
        for f in [os.path.join(build.SRC, 'fcp', x) for x in (
                'tracing/tracing_traits.cc', 'base/platform.cc', 'base/monitoring.cc', 'base/base_name.cc')] + [
                os.path.join(VERIF, 'shims', 'fatal.cc')]:
            o = os.path.join(OUT, os.path.basename(f) + '.o')
            r = run(['ccache', 'g++'] + flags + inc + ['-c', f, '-o', o])
            if r.returncode:
                raise mcpy.Internal('compiling %s: %s' % (f, r.stdout[-1500:]))
            libs.append(o)
    r = run(['g++', '-fsanitize=address', '-o', exe, obj, '-Wl,--start-group'] + libs +
            ['-Wl,--end-group'] + syslibs)
    if r.returncode:
        raise mcpy.Internal('linking the driver: ' + r.stdout[-1500:])
    return None


_proc = {}


def ask(line):
    p = _proc.get(os.getpid())
    if p is None:
        _proc.clear()
        # JSON rendering reads the schema's include relative to the directory
        p = subprocess.Popen([os.path.join(OUT, 'driver')], cwd=build.SRC, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        _proc[os.getpid()] = p
    try:
        p.stdin.write(line + '\n')
        p.stdin.flush()
        out = p.stdout.readline()
    except BrokenPipeError:
        out = ''
    if not out:
        _proc.clear()
        p.kill()
        p.wait()
        return None
    return out.rstrip('\n')


def enc(v):
    if isinstance(v, str):
        return 'x' + v.encode().hex()
    if isinstance(v, bool):
        return str(int(v))
    return repr(v)


def shown(v):
    if isinstance(v, float):
        return '%.17g' % v
    return enc(v)


def quote(s):
    out = '"'
    for c in s:
        if c in '"\\':
            out += '\\' + c
        elif c == '\n':
            out += '\\n'
        elif c == '\t':
            out += '\\t'
        elif ord(c) < 32:
            out += '\\u%04X' % ord(c)
        else:
            out += c
    return out + '"'


def number(v):
    s = ('%.12f' % v).rstrip('0')
    return s + '0' if s.endswith('.') else s


def text_value(t, v):
    """As flatbuffers writes it."""
    if t == 'string':
        return quote(v)
    if t == 'Color':
        return COLORS[v]
    if t == 'bool':
        return 'true' if v else 'false'
    if t in ('float', 'double'):
        return number(v)
    return str(v)


def rows(t, ctx):
    """The values of one record: boundary values of up to three fields."""
    out = {}
    n = 0
    for name, ty in t.args():
        vals = VALUES[ty]
        if len(t.args()) > 2 and not ctx.thorough:
            vals = vals[:3] if ty != 'string' else ['', 'a"b\\c', 'nul\0inside']
        out[name] = ctx.pick(vals, 'value of a field')
        n += 1
    return out


def norm_text(s):
    """Text with \\u escapes written alike (flatbuffers' own choice)."""
    return re.sub(r'\\x([0-9A-Fa-f]{2})', lambda m: '\\u00' + m.group(1).upper(), s)


@scenario()
def records(ctx):
    if PREPARED:
        ctx.fail(PREPARED)
    i = ctx.choose(len(TABLES), 'table')
    t = TABLES[i]
    v = rows(t, ctx)
    json = not any(isinstance(x, str) and ('\0' in x or 'ü' in x) for x in v.values())
    line = ask('%s %d %s' % ('json' if json else 'plain', i, ' '.join(enc(v[n]) for n, _ in t.args())))
    if line is None and json and t.ns:
        # known finding: the JSON rendering of tables in namespaces crashes
        json = False
        line = ask('plain %d %s' % (i, ' '.join(enc(v[n]) for n, _ in t.args())))
        ctx.outcome('no JSON for a table in a namespace')
    ctx.step('table %s with %r' % (t.full, v))
    if line is None:
        ctx.fail('building a record of %s crashes' % t.full)
    got = {}
    for part in line.split('|'):
        w = part.split()
        got[w[0]] = w[1:]
    ctx.eq(got['tuple'], [shown(v[n]) for n, _ in t.args()], 'values read back')
    ctx.eq(got['tag'], [t.tag, 'same'], 'tag')
    ctx.eq(got['name'], [t.full, t.full], 'name')
    sv = severity(t)
    ctx.eq(got['severity'], [sv, sv, sv, sv.upper()], 'severity')
    ctx.eq(got['span'], ['yes' if 'span' in t.attrs else 'no'], 'is a span')
    ctx.eq(got['text'][0], got['text'][1], 'text of the registered traits')
    text = norm_text(bytes.fromhex(got['text'][0][1:]).decode('utf-8', 'replace'))
    # fields with their default value are left out of the record
    want = []
    for n, ty in t.args():
        if ty == 'string' or v[n]:
            want.append((n, text_value(ty, v[n])))
    body = ', '.join('%s: %s' % w for w in want)
    if not any('grü' in x for x in v.values() if isinstance(x, str)):
        ctx.eq(' '.join(text.split()), ' '.join(('{ %s }' % body).split()), 'text')
    else:
        for n, _ in want:
            ctx.check(n + ': ' in text, 'the text misses ' + n)
    if json:
        js = bytes.fromhex(got['json'][0][1:]).decode('utf-8', 'replace')
        jw = []
        for n, ty in t.args():
            if ty == 'string' or v[n]:
                jw.append('%s: %s' % (n, '"%s"' % COLORS[v[n]] if ty == 'Color' else text_value(ty, v[n])))
        ctx.eq(' '.join(js.split()), ' '.join(('{ %s }' % ', '.join(jw)).split()), 'JSON')
    ctx.outcome(t.name.split('_')[0])


@scenario()
def registry(ctx):
    """Every registered tag finds its traits, any other tag the stub."""
    if PREPARED:
        ctx.fail(PREPARED)
    i = ctx.choose(len(TABLES) + 4 * 3, 'tag')
    if i < len(TABLES):
        tag, want = TABLES[i].tag, TABLES[i].full + ' 0'
    else:
        j = i - len(TABLES)
        tag = list('T000')
        tag[j % 4] = 'XYZ'[j // 4]
        tag, want = ''.join(tag), '?Unknown? 0'
    ctx.step('lookup ' + tag)
    ctx.eq(ask('lookup ' + tag), want, 'traits of a tag')


@scenario()
def refused_schemas(ctx):
    """Schemas without usable tags or with unsupported types are refused."""
    def tag_of(k):
        return ['', '(tag: "")', '(span)', '(tag: "A")', '(tag: "ABC")', '(tag: "ABCD")', '(tag: "ABCDE")',
                '(tag: "EFGH")', '(tag: "ABCD", warning)'][k]
    t1 = ctx.choose(9, 'first tag')
    t2 = ctx.choose(9, 'second tag')
    field = ctx.pick(['int', 'string', 'Color', '[int]', 'Str', 'Un', '[string]', 'First'], 'type of a field')
    if field != 'int' and t2 != 7:
        ctx.prune()
    where = os.path.join(OUT, 'w%d' % os.getpid())
    os.makedirs(where, exist_ok=True)
    fbs = os.path.join(where, 'tracing_schema.fbs')
    text = INCLUDE + 'enum Color : byte { Red, Green }\nstruct Str { x: int; }\n'
    text += 'table First %s { a: int; }\n' % tag_of(t1)
    text += 'union Un { First }\n' if field == 'Un' else ''
    text += 'table Second %s { a: int; b: %s; }\n' % (tag_of(t2), field)
    open(fbs, 'w').write(text)
    r = run(['flatc', '-b', '--schema', '--bfbs-comments', '-I', build.SRC, '-o', where, fbs], cwd=build.SRC)
    if r.returncode:
        raise mcpy.Internal('flatc: ' + r.stdout)
    p = subprocess.run([GENERATOR, 'g.h', os.path.join(where, 'tracing_schema.bfbs'), fbs],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    ctx.step('tags %s %s, field %s -> %d' % (tag_of(t1), tag_of(t2), field, p.returncode))
    good = (5, 7, 8)
    same = (t1 in (5, 8)) == (t2 in (5, 8)) and (t1 == 7) == (t2 == 7)
    ok = t1 in good and t2 in good and not same and field in ('int', 'string', 'Color')
    ctx.eq(p.returncode == 0, ok, 'the generator accepts the schema')
    ctx.check(p.returncode >= 0, 'the generator crashes')
    if not ok:
        ctx.check('ERROR' in p.stderr, 'no diagnosis for a refused schema')
    ctx.outcome(p.returncode)


mcpy.rule('%d tables - every field type, pairs, all orders of explicit identifiers, deprecated fields, severities, '
          'spans, namespaces - with every combination of boundary values (up to 6 per field) through the generated '
          'code; every registered and 12 other tags; 9 x 9 tags and 8 field types of schemas to refuse.' % len(TABLES))
mcpy.assumption('flatc and the flatbuffers library are trusted.')
if __name__ == '__main__':
    PREPARED = prepare()
    rc = mcpy.main()
    shutil.rmtree(OUT, ignore_errors=True)
    sys.exit(rc)
