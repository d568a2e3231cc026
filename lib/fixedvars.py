"""Variables loop invariants name that the loops they were written for do not
change; only used to match names after a renaming (slv.LoopCtx.resolve).
Written from SLV_FIXED output on the committed tree."""
FIXED = {
    ('avl_tree_detach', 0): ('element', 'tree'),
    ('avl_tree_detach', 1): ('element',),
    ('avl_tree_detach', 2): ('element',),
    ('avl_tree_next', 0): ('element',),
    ('avl_tree_previous', 0): ('element',),
    ('charstr_create_url_encoder', 0): ('encoder',),
    ('charstr_create_url_encoder', 1): ('encoder',),
    ('charstr_split', 0): ('list',),
    ('charstr_split_atoms', 0): ('list',),
    ('charstr_split_str', 0): ('list',),
    ('hash_table_get', 0): ('key',),
    ('hash_table_pop', 0): ('key',),
    ('hash_table_put', 0): ('key',),
    ('list_get', 0): ('value',),
    ('list_get_by_index', 0): ('idx',),
    ('priorq_dequeue', 0): ('prq', 'value'),
    ('priorq_enqueue', 0): ('prq',),
    ('priorq_enqueue', 1): ('prq', 'value'),
    ('priorq_remove', 0): ('prq', 'value'),
    ('priorq_remove', 1): ('prq', 'value'),
    ('punycode_encode_pass2', 1): ('n',),
    ('sort_combining_characters', 1): ('ccc',),
}
