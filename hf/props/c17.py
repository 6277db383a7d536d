"""Effect query over the MIR of every function, closure and async body of the shipped crates: every reference to a function
outside the workspace (called, passed as a value, or through a trait object) is classed by what it can do to storage.
Functions of the object store, file system, process and network interfaces are allowed only if listed as reading;
known mutating ones are violations, wherever they are referenced; unlisted ones of those interfaces are undecided. The
Python package's own sources are queried in the same way through their syntax trees. The query must also see the reads it is
known to contain, and the classification is tried on samples first."""
import ast
import os
import re

from .. import facts as F
from .common import *

MUT_STORE = {'put', 'put_opts', 'put_multipart', 'put_multipart_opts', 'put_multipart_extend', 'delete', 'delete_stream', 'delete_opts', 'copy', 'copy_opts',
             'copy_if_not_exists', 'rename', 'rename_opts', 'rename_if_not_exists', 'abort_multipart', 'create_multipart', 'complete_multipart', 'put_part',
             'put_file', 'put_payload'}
READ_STORE = {'get', 'get_opts', 'get_range', 'get_ranges', 'head', 'list', 'list_with_offset', 'list_with_delimiter', 'list_with_delimiter_and_offset'}
FS_READ = {'read', 'read_to_string', 'read_dir', 'metadata', 'symlink_metadata', 'canonicalize', 'exists', 'try_exists', 'read_link', 'open', 'is_file', 'is_dir', 'len',
           'file_type', 'modified', 'created', 'accessed', 'path', 'file_name', 'is_symlink', 'permissions', 'next', 'next_entry', 'try_clone', 'into_std', 'from_std'}
FS_MUT = {'write', 'remove_file', 'remove_dir', 'remove_dir_all', 'rename', 'copy', 'create_dir', 'create_dir_all', 'hard_link', 'soft_link', 'set_permissions', 'create',
          'create_new', 'set_len', 'set_modified', 'set_times', 'symlink', 'create_buffered', 'append', 'truncate'}
IO = re.compile(r'^(object_store|std::fs|std::os::\w+::fs|tokio::fs|async_fs|std::process|tokio::process|std::net|tokio::net|reqwest|hyper|libc|nix|rustix|tempfile|memmap2?|walkdir|fs_extra)\b')
HARMLESS = re.compile(r'^object_store::(path::|GetResult|ObjectMeta|ListResult|parse::|parse_url|PathPart|GetOptions|Error|ClientOptions|ObjectStoreScheme|prefix::|local::LocalFileSystem::new|'
                      r'(aws|gcp|azure|http)::\w+Builder|memory::InMemory::new|limit::LimitStore::new|buffered::BufReader)')
MUT_ANY = re.compile(r'(^|::)(insert_into|write_parquet|write_csv|write_json|DataSinkExec::new|CommandExt::exec)$|^object_store::(buffered::BufWriter|WriteMultipart|upload::)|'
                     r'(tempfile::.*(new|tempfile|tempdir|create))$')
PY_MUT = {'remove', 'unlink', 'rmdir', 'rmtree', 'rename', 'replace_file', 'removedirs', 'makedirs', 'mkdir', 'write_text', 'write_bytes', 'copyfile', 'copytree', 'copy2', 'move',
          'truncate', 'touch', 'symlink_to', 'hardlink_to', 'system', 'Popen', 'check_call', 'check_output', 'delete', 'write_table', 'write_dataset', 'delete_file', 'delete_dir',
          'delete_dir_contents', 'create_dir', 'copy_files', 'open_output_stream', 'open_append_stream'}


def effect(path, trait=''):
    """'write', 'read', 'unknown' or None (no access to storage)."""
    last = path.rsplit('::', 1)[-1]
    if MUT_ANY.search(path):
        return 'write'
    home = trait if IO.match(trait or '') else path
    if not IO.match(home):
        return None
    if home.startswith('object_store'):
        if HARMLESS.match(path):
            return None
        if last in MUT_STORE:
            return 'write'
        return 'read' if last in READ_STORE else ('unknown' if home == trait or 'ObjectStore' in path else None)
    if '::fs' in home or home.startswith('async_fs'):
        if last in FS_MUT:
            return 'write'
        return 'read' if last in FS_READ else 'unknown'
    if 'process' in home:
        return 'write' if last in ('spawn', 'output', 'status', 'exec') else (None if last in ('id', 'new', 'arg', 'args', 'env', 'exit', 'abort') else 'unknown')
    return 'unknown'


TESTS = [('object_store::ObjectStore::delete', 'object_store::ObjectStore', 'write'), ('object_store::ObjectStore::get', 'object_store::ObjectStore', 'read'),
         ('object_store::ObjectStore::put', 'object_store::ObjectStore', 'write'), ('object_store::ObjectStore::rename_if_not_exists', 'object_store::ObjectStore', 'write'),
         ('std::fs::remove_file', '', 'write'), ('std::fs::File::create', '', 'write'), ('std::fs::read', '', 'read'), ('tokio::fs::write', '', 'write'),
         ('std::fs::OpenOptions::append', '', 'write'), ('std::process::Command::spawn', '', 'write'), ('object_store::path::Path::from_url_path', '', None),
         ('core::option::Option::map', '', None), ('std::collections::HashMap::remove', '', None), ('object_store::buffered::BufWriter::new', '', 'write')]


def refs(f):
    """(path, trait, line) of every function mentioned in a body."""
    def walk(x, line):
        if isinstance(x, list):
            for y in x:
                yield from walk(y, line)
        elif isinstance(x, dict):
            if isinstance(x.get('f'), str):
                yield x['f'], x.get('tr') or '', line
            for y in x.values():
                if isinstance(y, (list, dict)):
                    yield from walk(y, line)
    for body in [f.body] + list(f.promoted):
        for b in body['b']:
            yield from walk(b['s'], None)
            t = b['t']
            yield from walk(t, t[5] if t[0] == 'call' and len(t) > 5 else None)


def generic_free(p):
    from ..mir import strip_generics
    return strip_generics(p)


def py_effects(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            g = n.func
            name = g.id if isinstance(g, ast.Name) else g.attr if isinstance(g, ast.Attribute) else None
            if name == 'open':
                mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
                if mode is None or (isinstance(mode, ast.Constant) and not set(str(mode.value)) & set('wax+')):
                    continue
                yield n.lineno, 'open(%s)' % ast.dump(mode)[:60]
            elif name in PY_MUT:
                yield n.lineno, name


def check(c):
    w = c.w

    def classes():
        for p, t, want in TESTS:
            if effect(p, t) != want:
                raise Undecided('%s is classed %s' % (p, effect(p, t)))
        if not list(py_effects(ast.parse('import os\nos.remove("x")\nopen("y", "w")'))) or list(py_effects(ast.parse('open("x")'))):
            raise Undecided('Python query')
    c.rule('self-test', 'classification', classes)
    reads = []
    for f in sorted(w.fns.values(), key=lambda f: f.id):
        hits = [(generic_free(p), t, l) for p, t, l in refs(f)]
        rel = [(effect(p, t), p, t, l) for p, t, l in hits]
        reads += [(f, p) for e, p, t, l in rel if e == 'read']

        def one():
            bad = [x for x in rel if x[0] == 'write']
            if bad:
                raise Bad('%s calls %s' % (f.path, bad[0][1]), f.loc(bad[0][3]), ['%s (%s)' % (p, f.loc(l)) for _, p, _, l in bad])
            unk = [x for x in rel if x[0] == 'unknown']
            if unk:
                raise Undecided('%s: effect of %s is not listed' % (f.loc(unk[0][3]), unk[0][1]))
            return '%s: %d external references' % (f.path, len(hits)) if any(x[0] for x in rel) else None
        c.rule('effects', f.id, one)

    def sees():
        ps = {p.rsplit('::', 1)[-1] for _, p in reads}
        if not {'get', 'head', 'list_with_delimiter'} & ps or len(reads) < 3:
            raise Undecided('the query sees only the reads %s' % sorted(ps))
        return 'reads seen: ' + ', '.join(sorted({'%s in %s' % (p, f.path) for f, p in reads}))
    c.rule('self-test', 'reads are visible', sees)
    for p in F._files(os.path.join(F.REPO, 'python/hudi'), ('.py',)):
        rel = p[len(F.REPO) + 1:]

        def pyfile():
            es = list(py_effects(ast.parse(open(p).read())))
            if es:
                raise Bad('%s' % es[0][1], '%s:%d' % (rel, es[0][0]))
        c.rule('python', rel, pyfile)
    c.floor('effects', 500)
    c.floor('python', 2)
