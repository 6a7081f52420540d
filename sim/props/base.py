class Property(object):
    ID = None
    RUNS = {'quick': 4000, 'thorough': 100000}
    RULE = ''
    ASSUMPTIONS = ()
    TIME_UNIT = 'scheduler steps (one request to, or one delivery into, a simulated component)'
    STATE_MEASURE = ''
    REAL = ()
    STUBS = ()
    MUST_HIT = ()
    CPU_LIMIT_S = 20.0    # a single simulated run normally takes milliseconds
    ISOLATED = False      # every run in a process of its own, without the JIT compiler

    def run(self, ch, ctx):
        raise NotImplementedError


READERS = ['amazon.ion.reader', 'amazon.ion.reader_binary', 'amazon.ion.reader_text', 'amazon.ion.reader_managed',
           'amazon.ion.symbols', 'amazon.ion.core', 'amazon.ion.util']
WRITERS = ['amazon.ion.writer', 'amazon.ion.writer_binary', 'amazon.ion.writer_binary_raw',
           'amazon.ion.writer_binary_raw_fields', 'amazon.ion.writer_buffer', 'amazon.ion.writer_text',
           'amazon.ion.symbols', 'amazon.ion.core', 'amazon.ion.util']
SIMPLE = ['amazon.ion.simpleion', 'amazon.ion.simple_types']
