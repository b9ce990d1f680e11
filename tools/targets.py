"""Libraries (globbed from the tree) and harness binaries."""

EXTRA_PROTO_SKIP = set()

LIBS = {
    'base': dict(globs=['fcp/base/*.cc', 'fcp/tracing/*.cc'],
                 shim_srcs=['shims/fatal.cc']),
    'secagg': dict(globs=['fcp/secagg/**/*.cc'],
                   exclude=[r'_bench']),
    'client': dict(globs=['fcp/client/*.cc', 'fcp/client/cache/*.cc', 'fcp/client/opstats/*.cc',
                          'fcp/client/attestation/*.cc', 'fcp/client/engine/*.cc',
                          'fcp/client/http/*.cc'],
                   exclude=[r'engine/(tf_wrapper|simple_plan_engine|tflite_)', r'attestation/oak_rust']),
    'confidential': dict(globs=['fcp/confidentialcompute/*.cc']),
    'dictionary': dict(globs=['fcp/dictionary/*.cc']),
    'curl': dict(globs=['fcp/client/http/curl/*.cc']),
    'tensorflow': dict(globs=['fcp/tensorflow/host_object.cc']),
}
COMMON = ['harness/common/mc.cc']
RAND = ['harness/common/rand.cc']
TARGETS = {}


def target(name, libs, srcs=None, flavor='st', extra=(), **kw):
    TARGETS[name] = dict(srcs=(srcs or ['harness/%s.cc' % name]) + COMMON + list(extra),
                         libs=libs, flavor=flavor, **kw)


target('c06_shamir', ['secagg', 'base'], extra=RAND)
target('c14_gzip', ['base'])
target('c45_convert', ['base'], syslibs='-lgrpc++ -lgrpc')
FSF = ['harness/common/fsfault.cc']
VCLK = ['harness/common/vclock.cc']
target('c18_tempfiles', ['client', 'base'], extra=FSF)
target('c20_opstats_logger', ['client', 'base'])
target('c25_curl_headers', ['curl', 'client', 'base'])
target('c52_curl', ['curl', 'client', 'base'])
target('c26_retry', ['client', 'base'], extra=VCLK)
target('c37_payload', ['confidential', 'base'])
target('c46_files', ['base'], extra=FSF)
target('c07_vectors', ['secagg', 'base'])
target('c08_graph', ['secagg', 'base'], extra=RAND)
target('c09_crypto', ['secagg', 'base'])
target('c01_secagg_sum', ['secagg', 'base'])
target('c02_secagg_server', ['secagg', 'base'])
target('c05_hostile_clients', ['secagg', 'base'])
target('c03_client_secrets', ['secagg', 'base'])
target('c04_client_lifecycle', ['secagg', 'base'])
SCHED = ['harness/common/mcsched.cc']
target('c11_scheduler', ['base'], flavor='mt', extra=SCHED)
target('c10_accumulator', ['secagg', 'base'], flavor='mt', extra=SCHED)
target('c10_server', ['secagg', 'base'], flavor='mt', extra=SCHED + RAND)
target('c12_clock', ['base'], flavor='mt', extra=SCHED)
target('c13_future', ['base'], flavor='mt', extra=SCHED)
target('c15_interruptible', ['client', 'base'], flavor='mt', extra=SCHED)
target('c42_host_object', ['tensorflow', 'base'], flavor='mt', extra=SCHED + RAND)
target('c39_tracing', ['base'], flavor='mt', extra=SCHED)
target('c39_text', ['base'])
target('c38_dictionary', ['dictionary', 'base'])
target('c44_attestation', ['client', 'base'])
target('c43_results', ['base'])
target('c34_stopwatch', ['base'], flavor='mt', extra=SCHED)
target('c34_values', ['base'], extra=RAND)
target('c24_uris', ['client', 'confidential', 'base'])
target('c23_fetch', ['client', 'confidential', 'base'], flavor='mt', extra=SCHED)
target('c33_polling', ['client', 'confidential', 'base'], flavor='mt', extra=SCHED)
target('c36_cose', ['confidential', 'base'])
target('c35_crypto', ['confidential', 'base'])
target('c47_nonces', ['confidential', 'base'], extra=RAND)
target('c30_slices', ['client', 'confidential', 'base'], extra=FSF)
target('c30_select', ['client', 'confidential', 'base'], flavor='mt', extra=SCHED)
target('c16_cache', ['client', 'base'])
target('c17_cache_faults', ['client', 'base'], extra=FSF)
target('c19_opstats_db', ['client', 'base'], extra=FSF + VCLK)
target('c21_opstats_queries', ['client', 'base'])
target('c22_eligibility', ['client', 'base'])
target('c32_example_query', ['client', 'tensorflow', 'base'])
target('c48_datasets', ['client', 'tensorflow', 'confidential', 'base'], flavor='mt', extra=SCHED + RAND)
target('c19_opstats_threads', ['client', 'confidential', 'tensorflow', 'base'], flavor='mt', extra=SCHED + RAND)
target('c27_checkin', ['client', 'tensorflow', 'secagg', 'confidential', 'base'], flavor='mt', extra=SCHED + RAND)
target('c28_report', ['client', 'tensorflow', 'secagg', 'confidential', 'base'], flavor='mt', extra=SCHED + RAND)
target('c29_secagg_http', ['client', 'tensorflow', 'secagg', 'confidential', 'base'], flavor='mt', extra=SCHED + RAND)
target('c31_fl_runner', ['client', 'tensorflow', 'secagg', 'confidential', 'base'], extra=VCLK)
target('c49_fl_records', ['client', 'tensorflow', 'secagg', 'confidential', 'base'], extra=VCLK)
target('c50_local_run', ['client', 'tensorflow', 'secagg', 'confidential', 'base'], extra=VCLK)
target('c51_engine', ['client', 'tensorflow', 'confidential', 'base'], extra=RAND)
