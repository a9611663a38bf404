CHECKS = {
    'C01': dict(runs=[dict(h='csv_tokenizer', quick=dict(p={'len': 5}), thorough=dict(p={'len': 8}, time=3000), reach=['corrupt', 'end', 'truncated'])]),
    'C02': dict(runs=[
        dict(h='records', name='whole', p=dict(fmt=1), quick=dict(p={'len': 5}), reach=['end', 'corrupt', 'too large', 'record']),
        dict(h='records', name='chunked', p=dict(fmt=1, chunked=1, sym_chars=0), quick=dict(p={'len': 4}), reach=['end', 'corrupt', 'too large', 'record']),
    ]),
    'C03': dict(runs=[
        dict(h='records', name='whole', p=dict(fmt=0), quick=dict(p={'len': 6}), reach=['end', 'record']),
        dict(h='records', name='chunked', p=dict(fmt=0, chunked=1), quick=dict(p={'len': 5}), reach=['end', 'record']),
    ]),
    'R01': dict(runs=[
        dict(h='records', name='whole', p=dict(fmt=2), quick=dict(p={'len': 26}), reach=['end', 'corrupt', 'record']),
        dict(h='records', name='chunked', p=dict(fmt=2, chunked=1, magic=1), quick=dict(p={'len': 22}), reach=['end', 'corrupt', 'record']),
    ]),
    'R02': dict(runs=[
        dict(h='records', name='whole', p=dict(fmt=3), quick=dict(p={'len': 22}), reach=['end', 'corrupt', 'record']),
    ]),
    'M02': dict(runs=[
        dict(h='memory', name='slices-any-offset', p=dict(mode=1, wide=1), quick=dict(p={'steps': 1}), thorough=dict(p={'steps': 2}, time=1200), reach=['sliced', 'rejected']),
        dict(h='memory', name='slices', p=dict(mode=1), quick=dict(p={'steps': 3}), reach=['sliced', 'rejected']),
        dict(h='memory', name='ownership', p=dict(mode=2), quick=dict(p={'steps': 3}), thorough=dict(p={'steps': 4})),
        dict(h='memory', name='chains', p=dict(mode=4), quick=dict(p={'steps': 3}), thorough=dict(p={'steps': 5}, time=1200), reach=['assigned']),
    ]),
    'M03': dict(runs=[
        dict(h='memory', name='resize', p=dict(mode=0), quick=dict(p={'steps': 3, 'size': 5}), thorough=dict(p={'steps': 4, 'size': 6, 'faults': 2}, time=2400), reach=['resized', 'fault']),
        dict(h='memory', name='default-threshold', p=dict(mode=3), quick=dict(p={}), reach=['large']),
    ]),
    'U01': dict(runs=[
        dict(h='streams', name='memory', p=dict(kind=0), quick=dict(p={'steps': 3}), reach=['read', 'sought']),
        dict(h='streams', name='file', p=dict(kind=1), quick=dict(p={'steps': 3}), reach=['read', 'sought']),
    ]),
    'U02': dict(runs=[
        dict(h='utf8', name='inferred', p=dict(enc_lo=0, enc_hi=1), quick=dict(p={'len': 8}), reach=['raw', 'converted', 'invalid']),
        dict(h='utf8', name='given', p=dict(enc_lo=2, enc_hi=5), quick=dict(p={'len': 6}), reach=['converted', 'invalid']),
    ]),
    'U03': dict(runs=[
        dict(h='gzip', quick=dict(p={'len': 6}), reach=['inflated', 'invalid']),
    ]),
    'U04': dict(runs=[
        dict(h='sagemaker', name='sharing', p=dict(faults=0, hiccups=0, len=1), quick=dict(p={'steps': 5}), thorough=dict(p={'steps': 7}), reach=['opened', 'already open', 'closed']),
        dict(h='sagemaker', name='faults', quick=dict(p={'steps': 2, 'hiccups': 3}), thorough=dict(p={'steps': 3, 'hiccups': 3}), reach=['opened', 'open failed', 'closed']),
        dict(h='sagemaker', name='stores', p=dict(mode=1), quick=dict(p={}), reach=['rejected', 'inflated', 'plain']),
    ]),
    'N01': dict(runs=[
        dict(h='numbers', name='short', p=dict(mode=0), quick=dict(p={'len': 4}), thorough=dict(p={'len': 6}, time=1200), reach=['number', 'malformed', 'overflow']),
        dict(h='numbers', name='extremes', p=dict(mode=0, long=1), quick=dict(p={'len': 4}), reach=['number', 'malformed', 'overflow']),
        dict(h='numbers', name='inferred', p=dict(mode=2), quick=dict(p={'len': 4}), thorough=dict(p={'len': 6}, time=1200), reach=['int64', 'float64', 'string']),
        dict(h='numbers', name='inferred-extremes', p=dict(mode=2, long=1), quick=dict(p={'len': 3}), reach=['int64', 'uint64']),
    ]),
    'N02': dict(runs=[
        dict(h='numbers', name='float', p=dict(mode=1), quick=dict(p={'len': 4}), thorough=dict(p={'len': 6}, time=1200), reach=['number', 'malformed', 'overflow', 'NaN', 'listed NaN']),
    ]),
    'T01': dict(runs=[
        dict(h='tensors', name='dense', p=dict(mode=0), quick=dict(p={'rank': 2, 'size': 4}), thorough=dict(p={'rank': 3, 'size': 6}), reach=['made', 'rejected']),
        dict(h='tensors', name='dense-wide', p=dict(mode=0, wide=1), quick=dict(p={'rank': 2, 'size': 2}), thorough=dict(p={'rank': 3, 'size': 2}), reach=['made', 'rejected']),
        dict(h='tensors', name='sparse', p=dict(mode=1), reach=['made', 'rejected']),
        dict(h='tensors', name='dlpack-types', p=dict(mode=4)),
    ]),
    'T02': dict(runs=[
        dict(h='tensors', name='builder', p=dict(mode=2), quick=dict(p={'rank': 3, 'values': 1, 'batch': 2}), thorough=dict(p={'rank': 3, 'values': 2}, time=1500), reach=['built', 'rejected']),
        dict(h='tensors', name='builder-wide', p=dict(mode=2, wide=1, batch=1), quick=dict(p={'rank': 2, 'values': 1}), thorough=dict(p={'rank': 3, 'values': 2}, time=1500), reach=['built', 'rejected']),
    ]),
    'T03': dict(runs=[
        dict(h='library', name='arrays', p=dict(mode=2), quick=dict(p={'size': 2}), thorough=dict(p={'size': 4}), reach=['elements', 'empty']),
        dict(h='library', name='devices', p=dict(mode=3), quick=dict(p={}), reach=['same', 'different']),
        dict(h='library', name='examples', p=dict(mode=4), quick=dict(p={}), reach=['found', 'not found', 'refused']),
    ]),
    'G01': dict(runs=[
        dict(h='library', name='log', p=dict(mode=0), quick=dict(p={'steps': 3}), thorough=dict(p={'steps': 5}, time=1200), reach=['message', 'thrown', 'none']),
        dict(h='library', name='setup', p=dict(mode=1), quick=dict(p={'steps': 3}), thorough=dict(p={'steps': 6}), reach=['again']),
    ]),
    'S01': dict(runs=[
        dict(h='tensors', name='schema', p=dict(mode=3), quick=dict(p={'attrs': 2}), thorough=dict(p={'attrs': 3}), reach=['duplicate', 'equal', 'different']),
        dict(h='tensors', name='strides', p=dict(mode=3, strides=1), quick=dict(p={'attrs': 1}), thorough=dict(p={'attrs': 2}), reach=['equal', 'different']),
    ]),
    'I01': dict(runs=[
        dict(h='readers', name='operations', preempt=0, p=dict(mode=1), quick=dict(p={'n': 3, 'batch': 2, 'steps': 4}), thorough=dict(p={'n': 4, 'batch': 3, 'steps': 6}, time=2400), reach=['end', 'reset', 'padded']),
        dict(h='readers', name='operations-of-csv', preempt=0, p=dict(mode=1, stores=1, csv=1, last=0, prefetch=1, parallel=1), quick=dict(p={'n': 3, 'batch': 2, 'steps': 4}), thorough=dict(p={'n': 4, 'batch': 2, 'steps': 6}, time=2400), reach=['end', 'reset']),
        dict(h='readers', name='operations-long', preempt=0, p=dict(mode=1, stores=1, min_batch=2, last=0), quick=dict(p={'n': 3, 'batch': 2, 'steps': 6}), thorough=dict(p={'n': 5, 'batch': 2, 'steps': 8}, time=1200), reach=['end', 'reset']),
        dict(h='readers', name='operations-ranged', preempt=0, p=dict(mode=1, stores=1, last=0, range=2, shard=2), quick=dict(p={'n': 3, 'batch': 1, 'steps': 3}), thorough=dict(p={'n': 4, 'batch': 2, 'steps': 4}, time=1200), reach=['end', 'reset']),
    ]),
    'I02': dict(runs=[
        dict(h='readers', name='epochs', preempt=0, p=dict(mode=0, range=4), quick=dict(p={'n': 4, 'batch': 2}), thorough=dict(p={'n': 7, 'batch': 3, 'range': 8}, time=1200), reach=['epoch']),
    ]),
    'I03': dict(runs=[
        dict(h='readers', name='shards', preempt=0, p=dict(mode=0, shard=4), quick=dict(p={'n': 5, 'batch': 2}), thorough=dict(p={'n': 9, 'batch': 3, 'shard': 6}, time=1200), reach=['epoch', 'rejected']),
        dict(h='readers', name='partition', preempt=0, p=dict(mode=2), quick=dict(p={'n': 6, 'batch': 2, 'shard': 4}), thorough=dict(p={'n': 10, 'batch': 3, 'shard': 6}, time=1200), reach=['partition']),
        dict(h='readers', name='shards-of-a-range', preempt=0, p=dict(mode=0, range=2, last=0, stores=1), quick=dict(p={'n': 5, 'batch': 1, 'shard': 3}), thorough=dict(p={'n': 7, 'batch': 2, 'shard': 4}, time=1200), reach=['epoch']),
    ]),
    'I04': dict(runs=[
        dict(h='readers', name='sampling', preempt=0, p=dict(mode=3), reach=['sampled']),
        dict(h='readers', name='interrupted', preempt=0, p=dict(mode=6, prefetch=1, parallel=1), thorough=dict(p={'prefetch': 2, 'parallel': 2}, time=2400), reach=['interrupted', 'again']),
        dict(h='readers', name='parameters', preempt=0, p=dict(mode=4), reach=['accepted', 'rejected']),
    ]),
    'I05': dict(runs=[
        dict(h='readers', name='epochs', preempt=0, p=dict(mode=0, twice=1, stores=1, last=0), quick=dict(p={'n': 4, 'batch': 2, 'shuffle': 3, 'min_batch': 2}), thorough=dict(p={'n': 5, 'batch': 2, 'shuffle': 4}, time=2400), reach=['epoch']),
        dict(h='readers', name='operations', preempt=0, p=dict(mode=1, stores=1, last=0), quick=dict(p={'n': 3, 'batch': 1, 'shuffle': 2, 'steps': 4}), thorough=dict(p={'n': 4, 'batch': 2, 'shuffle': 3, 'steps': 5}, time=2400), reach=['end', 'reset']),
        dict(h='readers', name='interrupted', preempt=0, p=dict(mode=1, stores=1, last=0, prefetch=1, parallel=1, min_batch=1), quick=dict(p={'n': 5, 'min_n': 5, 'batch': 1, 'shuffle': 2, 'steps': 3}), thorough=dict(p={'n': 6, 'min_n': 5, 'batch': 1, 'shuffle': 3, 'steps': 5}, time=2400), reach=['reset']),
        dict(h='readers', name='of-a-shard', preempt=0, p=dict(mode=0, stores=1, last=0, epochs=1), quick=dict(p={'n': 4, 'batch': 1, 'shuffle': 2, 'shard': 2, 'range': 1}), reach=['epoch']),
    ]),
    'B01': dict(runs=[
        dict(h='readers', name='batches', preempt=0, p=dict(mode=0), quick=dict(p={'n': 7, 'batch': 4, 'min_batch': 0}), thorough=dict(p={'n': 12, 'batch': 6, 'min_batch': 0}, time=1200), reach=['epoch', 'padded', 'rejected']),
        dict(h='readers', name='prefetching', preempt=0, p=dict(mode=0, stores=1, prefetch=1, parallel=3), quick=dict(p={'n': 7, 'batch': 3}), reach=['epoch', 'padded']),
    ]),
    'P01': dict(runs=[
        dict(h='readers', name='schedules', preempt=2, p=dict(mode=0, tbb_order=1, tbb_workers=2, min_n=3, stores=1, last=0, prefetch=2, parallel=2), quick=dict(p={'n': 3, 'batch': 1, 'epochs': 1}), reach=['epoch']),
        dict(h='readers', name='configurations', preempt=1, p=dict(mode=0, tbb_order=1, tbb_workers=2, min_n=3, stores=1, last=0, prefetch=2, parallel=2, min_prefetch=0, min_parallel=0), quick=dict(p={'n': 3, 'batch': 1, 'epochs': 1}), thorough=dict(p={'n': 3, 'batch': 2, 'epochs': 1}, time=1200), reach=['epoch']),
        dict(h='readers', name='epochs', preempt=1, p=dict(mode=0, tbb_order=1, stores=1, last=0, prefetch=1, parallel=1), quick=dict(p={'n': 4, 'min_n': 4, 'batch': 1, 'epochs': 2}), thorough=dict(p={'n': 3, 'min_n': 3, 'batch': 1, 'epochs': 2, 'tbb_workers': 2}, time=2400), reach=['epoch']),
        dict(h='readers', name='resets', preempt=1, p=dict(mode=1, tbb_order=1, min_n=3, stores=1, last=0, prefetch=2, min_prefetch=2, parallel=1), quick=dict(p={'n': 3, 'batch': 1, 'steps': 3}), thorough=dict(p={'n': 3, 'batch': 1, 'steps': 4, 'tbb_workers': 2}, time=2400), reach=['reset']),
    ]),
    'P02': dict(runs=[
        dict(h='readers', name='operations', preempt=1, p=dict(mode=1, tbb_order=1, tbb_workers=2, min_n=3, stores=1, last=0, prefetch=1), quick=dict(p={'n': 3, 'batch': 1, 'steps': 3}), thorough=dict(p={'n': 3, 'batch': 1, 'steps': 4}, time=2400), reach=['reset']),
        dict(h='readers', name='preemptions', preempt=2, p=dict(mode=1, tbb_order=1, tbb_workers=2, min_n=3, stores=1, last=0, prefetch=1), quick=dict(p={'n': 3, 'batch': 1, 'steps': 2}), thorough=dict(p={'n': 3, 'batch': 1, 'steps': 2, 'prefetch': 2}, time=2400), reach=['reset']),
        dict(h='faults', name='failures', preempt=1, p=dict(mode=0, batch=1, skip=0, limit=0, shards=0, sample=0, kinds=1, epochs=2, tbb_order=1, stores=2, quit=1), quick=dict(p={'lines': 1}), thorough=dict(p={'lines': 4, 'tbb_workers': 2}, time=2400), reach=['error', 'gone']),
    ]),
    'D01': dict(runs=[
        dict(h='csv', name='names', preempt=0, p=dict(mode=0, features=15), quick=dict(p={'cols': 2, 'names': 2}), thorough=dict(p={'cols': 3, 'names': 3}, time=2400), reach=['schema', 'schema error']),
        dict(h='csv', name='types', preempt=0, p=dict(mode=0, features=49), quick=dict(p={'cols': 2, 'names': 3}), thorough=dict(p={'cols': 3, 'names': 3}, time=2400), reach=['schema', 'schema error', 'rejected']),
        dict(h='csv', name='selection', preempt=0, p=dict(mode=0, features=195, cells=0), quick=dict(p={'cols': 2, 'names': 4}), thorough=dict(p={'cols': 3, 'names': 4}, time=2400), reach=['schema', 'schema error']),
        dict(h='csv', name='duplicates', preempt=0, p=dict(mode=0, features=128, cells=0), quick=dict(p={'cols': 5, 'names': 3}), thorough=dict(p={'cols': 6, 'names': 4}, time=1200), reach=['schema', 'schema error']),
        dict(h='csv', name='selected-duplicates', preempt=0, p=dict(mode=0, features=192, cells=0), quick=dict(p={'cols': 4, 'names': 3}), thorough=dict(p={'cols': 5, 'names': 3}, time=1200), reach=['schema', 'schema error']),
        dict(h='csv', name='blank-names', preempt=0, p=dict(mode=0, features=265), quick=dict(p={'cols': 2, 'names': 4}), thorough=dict(p={'cols': 3, 'names': 4}, time=1200), reach=['schema', 'schema error']),
        dict(h='csv', name='several-types', preempt=0, p=dict(mode=0, features=33, cells=0, overrides=2), quick=dict(p={'cols': 3, 'names': 3}), thorough=dict(p={'cols': 3, 'names': 4, 'overrides': 3}, time=2400), reach=['schema', 'rejected']),
        dict(h='csv', name='several-selected', preempt=0, p=dict(mode=0, features=97, cells=0, overrides=2), quick=dict(p={'cols': 2, 'names': 3}), thorough=dict(p={'cols': 3, 'names': 3}, time=2400), reach=['schema', 'rejected']),
        dict(h='csv', name='empty-store-first', preempt=0, p=dict(mode=0, features=15, stores=2), quick=dict(p={'cols': 2, 'names': 1}), reach=['schema', 'schema error']),
    ]),
    'B03': dict(runs=[
        dict(h='csv', name='kinds', preempt=0, p=dict(mode=1, warn=1, last=4), quick=dict(p={'rows': 2, 'batch': 2}), thorough=dict(p={'rows': 3, 'batch': 2}, time=2400), reach=['example', 'padded', 'skipped', 'fault']),
        dict(h='csv', name='batches', preempt=0, p=dict(mode=1, min_bad=1, digits=1, kinds=3, last=4), quick=dict(p={'rows': 5, 'min_rows': 3, 'batch': 3}), thorough=dict(p={'rows': 7, 'min_rows': 3, 'batch': 4}, time=1200), reach=['example', 'padded', 'skipped']),
        dict(h='csv', name='columns', preempt=0, p=dict(mode=1, use=1), quick=dict(p={'rows': 2, 'min_rows': 2, 'batch': 2}), thorough=dict(p={'rows': 3, 'min_rows': 2, 'batch': 2}, time=1200), reach=['example', 'padded', 'skipped', 'fault']),
        dict(h='csv', name='headers', preempt=0, p=dict(mode=1, header=1, stores=2, kinds=1, bad=0, digits=1), quick=dict(p={'rows': 3, 'batch': 2}), thorough=dict(p={'rows': 5, 'batch': 3}, time=1200), reach=['example']),
        dict(h='csv', name='long-fields', preempt=0, p=dict(mode=1, too_long=1, kinds=17, warn=1), quick=dict(p={'rows': 2}), thorough=dict(p={'rows': 3}, time=1200), reach=['example', 'padded', 'skipped', 'fault']),
        dict(h='csv', name='parallel', preempt=0, p=dict(mode=1, cut_off=1, pfor_split=1), quick=dict(p={'rows': 3, 'kinds': 3}), thorough=dict(p={'rows': 4, 'kinds': 7, 'batch': 3}, time=1200), reach=['example', 'skipped', 'fault', 'padded']),
    ]),
    'D02': dict(runs=[
        dict(h='proto', name='kinds', preempt=0, p=dict(mode=0), quick=dict(p={'const': 1, 'values': 1, 'warn': 1}, time=150), thorough=dict(p={'values': 1, 'warn': 1, 'rows': 3, 'batch': 2, 'const': 1}, time=2400), reach=['example', 'padded', 'skipped', 'fault']),
        dict(h='proto', name='values', preempt=0, p=dict(mode=0, kinds=3), quick=dict(p={'values': 2, 'masks': 12}), thorough=dict(p={'values': 3, 'masks': 254, 'max_key': 4}, time=1200), reach=['example']),
        dict(h='proto', name='batches', preempt=0, p=dict(mode=0, min_bad=1, kinds=5, const=1, values=1, shapes=0, last=4), quick=dict(p={'rows': 5, 'min_rows': 4, 'batch': 3, 'masks': 4}, time=150), thorough=dict(p={'rows': 6, 'min_rows': 4, 'batch': 4, 'masks': 20}, time=2400), reach=['example', 'padded', 'skipped']),
        dict(h='proto', name='shapes', preempt=0, p=dict(mode=0, shapes=2, kinds=3, values=1, bad=0), quick=dict(p={'rows': 2, 'batch': 1}), thorough=dict(p={'rows': 3, 'batch': 2}, time=1200), reach=['example']),
        dict(h='proto', name='parallel', preempt=0, p=dict(mode=0, const=1, values=1, cut_off=1, pfor_split=1, masks=48, bad=2), quick=dict(p={'rows': 3, 'min_rows': 2, 'batch': 3, 'kinds': 1023}, time=150), thorough=dict(p={'rows': 4, 'min_rows': 2, 'batch': 4, 'kinds': 1023}, time=2400), reach=['example', 'skipped', 'fault']),
        dict(h='proto', name='sequential', preempt=0, p=dict(mode=0, const=1, values=1, cut_off=1, pfor_split=1, early=1, shapes=0, kinds=1029), quick=dict(p={'rows': 3, 'min_rows': 3, 'batch': 2, 'masks': 58}, time=150), thorough=dict(p={'rows': 4, 'min_rows': 2, 'batch': 3, 'masks': 254}, time=2400), reach=['example', 'padded', 'skipped', 'fault']),
        dict(h='proto', name='schema', preempt=0, p=dict(mode=2), quick=dict(p={}), reach=['schema error']),
    ]),
    'R03': dict(runs=[
        dict(h='proto', name='stores', preempt=0, p=dict(mode=1, parts=0, stores=2), quick=dict(p={'records': 4}), thorough=dict(p={'records': 6}, time=1200), reach=['corrupt', 'end']),
        dict(h='proto', name='parts', preempt=0, p=dict(mode=1, parts=1, stores=1), quick=dict(p={'records': 3}), thorough=dict(p={'records': 5}, time=1200), reach=['corrupt', 'end']),
    ]),
    'P03': dict(runs=[
        dict(h='faults', name='lasting', preempt=0, p=dict(mode=0), quick=dict(p={'batch': 2, 'skip': 1, 'limit': 2, 'kinds': 1}), thorough=dict(p={'batch': 2, 'skip': 2, 'limit': 3, 'kinds': 1, 'lines': 3}, time=2400), reach=['error', 'gone', 'not needed']),
        dict(h='faults', name='kinds', preempt=0, p=dict(mode=0, batch=1, skip=0, limit=0, shards=0, sample=0), quick=dict(p={'kinds': 7}), thorough=dict(p={'kinds': 7, 'lines': 3, 'batch': 3, 'stores': 3}, time=1200), reach=['error', 'gone']),
        dict(h='faults', name='csv', preempt=0, p=dict(mode=0, csv=1), quick=dict(p={'batch': 2, 'skip': 1, 'limit': 2, 'shards': 0, 'kinds': 1}), thorough=dict(p={'batch': 2, 'skip': 2, 'limit': 3, 'kinds': 1, 'lines': 3}, time=2400), reach=['error', 'gone', 'not needed']),
        dict(h='faults', name='schedules', preempt=2, p=dict(mode=0, batch=1, skip=0, limit=0, shards=0, sample=0, kinds=1, heal=0, epochs=1, tbb_order=1, tbb_workers=2), quick=dict(p={'lines': 2}), thorough=dict(p={'lines': 3}, time=2400), reach=['error']),
        dict(h='faults', name='epochs', preempt=1, p=dict(mode=0, batch=1, skip=0, limit=0, shards=0, sample=0, kinds=1, epochs=2, tbb_order=1, quit=1), quick=dict(p={'stores': 2, 'lines': 1}), thorough=dict(p={'stores': 2, 'lines': 2, 'tbb_workers': 2}, time=2400), reach=['error', 'gone']),
        dict(h='faults', name='once', preempt=0, p=dict(mode=0, once=1, schemas=2, kinds=1, shards=0, sample=0, heal=0), quick=dict(p={'batch': 2, 'skip': 2, 'limit': 2}), thorough=dict(p={'batch': 2, 'skip': 2, 'limit': 3, 'lines': 3, 'schemas': 3}, time=1200), reach=['error', 'again', 'once']),
        dict(h='records', name='failing-lines', p=dict(fmt=0, chunked=1, fails=1, peek=1), quick=dict(p={'len': 4}), thorough=dict(p={'len': 6}, time=1200), reach=['failed']),
        dict(h='records', name='failing-rows', p=dict(fmt=1, sym_chars=0, limit=0, chunked=1, fails=1, peek=1), quick=dict(p={'len': 3}), thorough=dict(p={'len': 5}, time=1200), reach=['failed']),
        dict(h='records', name='failing-recordio', p=dict(fmt=2, magic=1, chunked=1, fails=1, peek=1), quick=dict(p={'len': 12}), thorough=dict(p={'len': 22}, time=1200), reach=['failed']),
        dict(h='records', name='failing-parquet', p=dict(fmt=3, magic=1, chunked=1, fails=1, peek=1), quick=dict(p={'len': 13}), thorough=dict(p={'len': 18}, time=1200), reach=['failed']),
        dict(h='faults', name='passing', preempt=0, p=dict(mode=1), quick=dict(p={'kinds': 7}), thorough=dict(p={'kinds': 7, 'lines': 3, 'times': 3, 'shards': 3}, time=1200), reach=['again', 'read']),
        dict(h='faults', name='passing-csv', preempt=0, p=dict(mode=1, csv=1, kinds=1), quick=dict(p={'batch': 1}), thorough=dict(p={'kinds': 7, 'lines': 3}, time=1200), reach=['again', 'read']),
    ]),
    'D04': dict(runs=[
        dict(h='csv', name='quoting', preempt=0, p=dict(mode=2, features=133), quick=dict(p={'rows': 2, 'stores': 1, 'epochs': 1}), thorough=dict(p={'rows': 2, 'stores': 1, 'epochs': 2}, time=1200), reach=['example', 'epoch']),
        dict(h='csv', name='encodings', preempt=0, p=dict(mode=2, features=368), quick=dict(p={'rows': 1, 'stores': 2}), thorough=dict(p={'rows': 2, 'stores': 2}, time=2400), reach=['example', 'epoch']),
        dict(h='csv', name='headers', preempt=0, p=dict(mode=2, features=70), quick=dict(p={'rows': 2, 'stores': 1}), thorough=dict(p={'rows': 1, 'stores': 2}, time=1200), reach=['example', 'epoch']),
        dict(h='csv', name='noise', preempt=0, p=dict(mode=2, features=74), quick=dict(p={'rows': 2, 'stores': 1, 'epochs': 1}), thorough=dict(p={'rows': 1, 'stores': 2}, time=1800), reach=['example', 'epoch']),
        dict(h='csv', name='long-lines', preempt=0, p=dict(mode=2, features=522), quick=dict(p={'rows': 1, 'stores': 2}), thorough=dict(p={'rows': 2, 'stores': 2}, time=1800), reach=['example', 'epoch', 'too long']),
        dict(h='csv', name='long-wide-lines', preempt=0, p=dict(mode=2, features=848), quick=dict(p={'rows': 1, 'stores': 2}), thorough=dict(p={'rows': 2, 'stores': 2}, time=1800), reach=['example', 'epoch', 'too long']),
    ]),
    'D03': dict(runs=[
        dict(h='image', name='geometry', preempt=0, p=dict(bad=0, kinds=1, frame=0, images=1, batch=1), quick=dict(p={'size': 4, 'out': 3, 'resize': 4}), thorough=dict(p={'size': 6, 'out': 4, 'resize': 7}, time=2400), reach=['example', 'fault']),
        dict(h='image', name='kinds', preempt=0, p=dict(warn=1, images=1), quick=dict(p={'out': 1, 'resize': 2}, time=150), thorough=dict(p={'out': 2, 'resize': 3}, time=2400), reach=['example', 'padded', 'skipped', 'fault']),
        dict(h='image', name='batches', preempt=0, p=dict(warn=1, batch=2, channels=4, resize=0, out=1, size=1, last=4, frame=0, kinds=3), quick=dict(p={'images': 2}), thorough=dict(p={'images': 4, 'batch': 3}, time=1200), reach=['example', 'padded', 'skipped', 'fault']),
        dict(h='image', name='frames', preempt=0, p=dict(channels=1, resize=0, out=1, size=1), quick=dict(p={'images': 2, 'batch': 2, 'kinds': 11}), thorough=dict(p={'images': 3, 'batch': 2, 'kinds': 11}, time=2400), reach=['example', 'padded', 'skipped', 'fault']),
    ]),
    'A01': dict(runs=[
        dict(h='insights', name='texts', preempt=0, p=dict(limit=0), quick=dict(p={'rows': 1, 'length': 2}), thorough=dict(p={'rows': 1, 'length': 3}, time=2400), reach=['analysis']),
        dict(h='insights', name='columns-of-texts', preempt=0, p=dict(limit=2), quick=dict(p={'rows': 3, 'length': 1, 'batch': 2, 'limit': 1}), thorough=dict(p={'rows': 2, 'length': 2, 'batch': 2, 'limit': 1}, time=2400), reach=['analysis', 'overflow']),
        dict(h='insights', name='numbers', preempt=0, p=dict(numbers=10, limit=0), quick=dict(p={'rows': 3, 'batch': 3}), thorough=dict(p={'rows': 4, 'batch': 3}, time=1200), reach=['analysis']),
        dict(h='insights', name='captured', preempt=0, p=dict(numbers=4, limit=2), quick=dict(p={'rows': 4, 'batch': 2}), thorough=dict(p={'rows': 5, 'batch': 3, 'limit': 3}, time=1200), reach=['analysis', 'overflow']),
        dict(h='insights', name='columns', preempt=0, p=dict(columns=2, limit=1, numbers=6), quick=dict(p={'rows': 2, 'batch': 2}), thorough=dict(p={'rows': 3, 'batch': 2, 'numbers': 4}, time=1200), reach=['analysis', 'overflow']),
        dict(h='insights', name='rejected', preempt=0, p=dict(mode=1), quick=dict(p={}), reach=['rejected']),
    ]),
    'A02': dict(runs=[
        dict(h='hll', name='adding', preempt=0, p=dict(mode=0), quick=dict(p={'texts': 2}, time=150), thorough=dict(p={'texts': 3}, time=2400), reach=['added']),
        dict(h='hll', name='merging', preempt=0, p=dict(mode=1), quick=dict(p={}), reach=['merged']),
        dict(h='hll', name='estimating', preempt=0, p=dict(mode=2), quick=dict(p={}), reach=['estimate', 'large']),
        dict(h='hll', name='hashing', preempt=0, p=dict(mode=3), quick=dict(p={'length': 15}), reach=['hash']),
        dict(h='hll', name='hashing-long-texts', preempt=0, p=dict(mode=3), quick=dict(p={'known': 4, 'length': 15}), reach=['hash']),
    ]),
    'K01': dict(runs=[
        dict(h='stores', name='content', preempt=0, p=dict(mode=0), quick=dict(p={'path': 6, 'content': 3}), thorough=dict(p={'path': 8, 'content': 5}, time=1200), reach=['rejected', 'fault', 'inflated', 'plain']),
    ]),
    'L01': dict(runs=[
        dict(h='stores', name='loading', preempt=0, p=dict(mode=1), quick=dict(p={'content': 5, 'shorts': 2}), thorough=dict(p={'content': 8, 'shorts': 3, 'faults': 2}, time=1200), reach=['loaded', 'not opened', 'fault']),
    ]),
    'K02': dict(runs=[
        dict(h='stores', name='listing', preempt=0, p=dict(mode=3), quick=dict(p={'names': 2, 'paths': 1, 'depth': 2, 'entries': 2}), thorough=dict(p={'names': 3, 'paths': 1, 'depth': 2, 'entries': 3}, time=2400), reach=['listed', 'error', 'bad pattern']),
        dict(h='stores', name='paths', preempt=0, p=dict(mode=3), quick=dict(p={'names': 2, 'paths': 2, 'entries': 1}), thorough=dict(p={'names': 2, 'paths': 2, 'entries': 2}, time=2400), reach=['listed', 'error', 'bad pattern']),
        dict(h='stores', name='order', preempt=0, p=dict(mode=2), quick=dict(p={'length': 3}), thorough=dict(p={'length': 5}, time=2400), reach=['order']),
        dict(h='stores', name='order-axioms', preempt=0, p=dict(mode=2, axioms=1), quick=dict(p={'length': 2}), thorough=dict(p={'length': 3}, time=2400), reach=['order']),
    ]),
    'K03': dict(runs=[
        dict(h='s3', name='objects', preempt=0, p=dict(mode=0), quick=dict(p={'uri': 6, 'content': 2}), thorough=dict(p={'uri': 8, 'content': 4}, time=1200), reach=['rejected', 'fault', 'inflated', 'plain']),
        dict(h='s3', name='streams', preempt=0, p=dict(mode=1), quick=dict(p={'content': 3, 'steps': 3}), thorough=dict(p={'content': 4, 'steps': 4}, time=2400), reach=['read', 'fault']),
        dict(h='s3', name='pages', preempt=0, p=dict(mode=2), quick=dict(p={'objects': 2, 'uris': 1}), thorough=dict(p={'objects': 3, 'uris': 1, 'page': 3}, time=2400), reach=['listed', 'error', 'rejected']),
        dict(h='s3', name='prefixes', preempt=0, p=dict(mode=2, faults=0), quick=dict(p={'objects': 2, 'uris': 2, 'bad': 0}), thorough=dict(p={'objects': 3, 'uris': 2, 'names': 4}, time=2400), reach=['listed', 'rejected']),
        dict(h='s3', name='options', preempt=0, p=dict(mode=3), quick=dict(p={}), reach=['client']),
    ]),
    'Y01': dict(runs=[
        dict(h='py', name='formats', preempt=0, p=dict(mode=10), quick=dict(p={}), reach=['buffer', 'format']),
        dict(h='py', name='layouts', preempt=0, p=dict(mode=11), quick=dict(p={}), reach=['copied', 'shared', 'strided']),
        dict(h='py', name='objects', preempt=0, p=dict(mode=12), quick=dict(p={}), reach=['texts']),
        dict(h='py', name='exported', preempt=0, p=dict(mode=13), quick=dict(p={}), reach=['exported', 'text', 'not UTF-8']),
        dict(h='py', name='shapes', preempt=0, p=dict(mode=16), quick=dict(p={'dim': 2}), thorough=dict(p={'dim': 4}), reach=['sparse', 'dense', 'strided']),
        dict(h='py', name='blocks', preempt=0, p=dict(mode=14), quick=dict(p={}), reach=['read', 'stored']),
        dict(h='py', name='views', preempt=0, p=dict(mode=15), quick=dict(p={}), reach=['view']),
    ]),
    'Y02': dict(runs=[
        dict(h='py', name='reader-parameters', preempt=0, p=dict(mode=0), quick=dict(p={}), reach=['parameters']),
        dict(h='py', name='csv-parameters', preempt=0, p=dict(mode=1), quick=dict(p={}), reach=['parameters']),
        dict(h='py', name='other-parameters', preempt=0, p=dict(mode=2), quick=dict(p={}), reach=['parameters']),
        dict(h='py', name='stores', preempt=0, p=dict(mode=3), quick=dict(p={}), reach=['store']),
        dict(h='py', name='enumerations', preempt=0, p=dict(mode=4), quick=dict(p={}), reach=['values']),
        dict(h='py', name='attributes-and-devices', preempt=0, p=dict(mode=5), quick=dict(p={}), reach=['attribute', 'device']),
        dict(h='py', name='schemas-and-stores', preempt=0, p=dict(mode=6), quick=dict(p={}), reach=['equal', 'different']),
        dict(h='py', name='streams', preempt=0, p=dict(mode=7), quick=dict(p={'steps': 2}), thorough=dict(p={'steps': 4}), reach=['read', 'closed']),
    ]),
    'Y05': dict(contracts='mlio.integ', runs=[]),
    'Y03': dict(runs=[
        dict(h='py', name='errors', preempt=0, p=dict(mode=20), quick=dict(p={}), reach=['class', 'chain']),
    ]),
    'Y04': dict(runs=[
        dict(h='py', name='examples', preempt=0, p=dict(mode=30), quick=dict(p={}), reach=['example']),
        dict(h='py', name='iterating-examples', preempt=0, p=dict(mode=31), quick=dict(p={}), reach=['next', 'iterated']),
        dict(h='py', name='readers', preempt=0, p=dict(mode=32), quick=dict(p={}), reach=['read', 'reader']),
        dict(h='py', name='records', preempt=0, p=dict(mode=33), quick=dict(p={}), reach=['record', 'records']),
        dict(h='py', name='messages', preempt=0, p=dict(mode=34), quick=dict(p={}), reach=['messages']),
    ]),
    'P04': dict(runs=[
        dict(h='readers', name='starting', preempt=1, p=dict(mode=5, prefetch=1, parallel=1), quick=dict(p={}), thorough=dict(p={'steps': 5, 'n': 3, 'faults': 3}, time=1200), reach=['read', 'not started']),
    ]),
}
