"""Writes small Hudi tables below a scratch directory and reads them through the Python binding built from /repo."""
import json
import os
import shutil
import struct
import sys
import tempfile

sys.path.insert(0, os.path.join(os.getcwd(), 'python'))
import pyarrow as pa
import pyarrow.parquet as pq

META = ['_hoodie_commit_time', '_hoodie_commit_seqno', '_hoodie_record_key', '_hoodie_partition_path', '_hoodie_file_name']
PROPS = {
    'hoodie.table.name': 't', 'hoodie.table.type': 'COPY_ON_WRITE', 'hoodie.table.version': '6',
    'hoodie.timeline.layout.version': '1', 'hoodie.table.base.file.format': 'PARQUET',
    'hoodie.datasource.write.drop.partition.columns': 'false', 'hoodie.table.timeline.timezone': 'UTC',
    'hoodie.table.recordkey.fields': 'id', 'hoodie.table.precombine.field': 'ts',
    'hoodie.populate.meta.fields': 'true',
}


class Tab:
    def __init__(self, **props):
        self.dir = tempfile.mkdtemp(prefix='hudi_demo_')
        os.makedirs(os.path.join(self.dir, '.hoodie'))
        self.bases = {}
        self.props = dict(PROPS)
        for k, v in props.pop('props', {}).items():
            if v is None:
                self.props.pop(k, None)
            else:
                self.props[k] = v
        with open(os.path.join(self.dir, '.hoodie', 'hoodie.properties'), 'w') as f:
            for k, v in self.props.items():
                f.write('%s=%s\n' % (k, v))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    @property
    def uri(self):
        return self.dir

    def put(self, rel, data=b''):
        p = os.path.join(self.dir, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return rel

    def batch(self, rows, ts, part='', name=''):
        """rows: (id, ts, value) or dict; a row dict may override _hoodie_commit_time and the sequence number."""
        out = {m: [] for m in META}
        out.update(id=[], ts=[], v=[], p=[])
        for n, r in enumerate(rows):
            if not isinstance(r, dict):
                r = dict(id=r[0], ts=r[1], v=r[2])
            ct = r.get('ct', ts)
            out['_hoodie_commit_time'].append(ct)
            out['_hoodie_commit_seqno'].append(r.get('seq', '%s_0_%d' % (ct, n)))
            out['_hoodie_record_key'].append(r['id'])
            out['_hoodie_partition_path'].append(part)
            out['_hoodie_file_name'].append(name)
            out['id'].append(r['id'])
            out['ts'].append(r['ts'])
            out['v'].append(r['v'])
            out['p'].append(r.get('p', part))
        sch = pa.schema([(m, pa.string()) for m in META] + [('id', pa.string()), ('ts', pa.int64()), ('v', pa.string()), ('p', pa.string())])
        return pa.table(out, schema=sch)

    def base(self, fid, ts, rows, part='', token='0-1-2', name=None):
        name = name or '%s_%s_%s.parquet' % (fid, token, ts)
        rel = os.path.join(part, name)
        p = os.path.join(self.dir, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if part:
            pm = os.path.join(self.dir, part, '.hoodie_partition_metadata')
            open(pm, 'w').close()
        pq.write_table(self.batch(rows, ts, part, name), p)
        self.bases[(part, fid)] = name
        return rel

    def log(self, fid, base_ts, blocks, part='', ver=1, token='0-3-4', name=None):
        name = name or '.%s_%s.log.%d_%s' % (fid, base_ts, ver, token)
        return self.put(os.path.join(part, name), b''.join(blocks))

    def data_block(self, ts, rows, part='', version=1):
        sink = pa.BufferOutputStream()
        pq.write_table(self.batch(rows, ts, part), sink)
        return block(5, {0: ts}, sink.getvalue().to_pybytes(), version)

    def rollback_block(self, ts, target):
        return block(0, {0: ts, 1: target, 3: '0'}, b'')

    def schema_json(self):
        f = lambda n, t: {'name': n, 'type': ['null', t], 'default': None}
        return json.dumps({'type': 'record', 'name': 'r', 'fields': [f('id', 'string'), f('ts', 'long'), f('v', 'string'), f('p', 'string')]})

    def commit(self, ts, stats=(), action='commit', state='', replaced=None, **extra):
        """stats: (partition, file id, relative path)."""
        m = {'partitionToWriteStats': {}, 'compacted': False, 'extraMetadata': {'schema': self.schema_json()}, 'operationType': 'UPSERT'}
        for part, fid, rel in stats:
            st = {'fileId': fid, 'path': rel, 'prevCommit': 'null', 'numWrites': 1}
            if not rel.endswith('.parquet'):
                st['baseFile'] = self.bases.get((part, fid), '')
                st['logFiles'] = [os.path.basename(rel)]
            m['partitionToWriteStats'].setdefault(part, []).append(st)
        if replaced is not None:
            m['partitionToReplaceFileIds'] = replaced
            m['operationType'] = 'INSERT_OVERWRITE'
        m.update(extra)
        if state == 'inflight' and action == 'commit':
            n = ts + '.inflight'
        else:
            n = ts + '.' + action + ('.' + state if state else '')
        self.put('.hoodie/' + n, json.dumps(m) if not state else b'')

    def open(self, **options):
        from hudi import HudiTableBuilder
        b = HudiTableBuilder.from_base_uri(self.uri)
        for k, v in options.pop('options', {}).items():
            b = b.with_option(k, v)
        return b.build()


def block(btype, header, content, version=1):
    def meta(m):
        out = struct.pack('>I', len(m))
        for k, v in m.items():
            v = v.encode()
            out += struct.pack('>II', k, len(v)) + v
        return out
    body = struct.pack('>I', version)
    body += struct.pack('>I', btype) + meta(header) + struct.pack('>Q', len(content)) + content
    if version == 1:
        body += meta({})
        body += struct.pack('>Q', 6 + 8 + len(body) + 8)
    return b'#HUDI#' + struct.pack('>Q', len(body)) + body


def rows(batches, *cols):
    cols = cols or ('id', 'ts', 'v')
    out = []
    for b in batches if isinstance(batches, (list, tuple)) else [batches]:
        b = pa.table(b) if isinstance(b, pa.RecordBatch) else b
        d = b.to_pydict()
        out += list(zip(*[d[c] for c in cols]))
    return sorted(out)


def expect(what, got, want):
    if got != want:
        print('FAIL %s: got %r, expected %r' % (what, got, want))
        sys.exit(1)
    print('ok %s' % what)
