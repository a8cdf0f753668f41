"""C05: a coordinated receiver never ends early."""
import coord


def run(c):
    ms = coord.models(c, defects=['check_first', 'count_read_first', 'count_twice', 'over_is_over'])
    acks = [dict(threads=n, rounds=3000 if c.quick else 60000) for n in (2, 3, 4)]
    traces = c.harness('coord', coord.scripts(c, ['ack', 'nack'], 4500))
    c.validate('TraceCoord', traces, coord.CONSTS, corrupt=coord.corrupt, ncorrupt=80, maxcorrupt=200, inv=['Inv'], what='schedules')
    c.validate('TraceCoord', c.harness('coord', coord.volume(c, ['ack', 'nack'])), coord.CONSTS, inv=['Inv'], what='many messages')
    traces = c.harness('coord-stress', coord.stress(c, 500 if c.quick else 10000))
    c.validate('TraceCoord', traces, coord.CONSTS, inv=['Inv'], what='multi-threaded')
    traces = c.harness('coord-acks', acks)
    c.validate('TraceCoord', traces, coord.CONSTS, inv=['Inv'], what='simultaneous acknowledgements')
    c.models(ms)
