MUTANTS = []
def m(mid, props, kind, *edits): MUTANTS.append((mid, props.split(), kind, edits))
L, DI, DT, DD = 'deserializers/default_list.py', 'deserializers/default_iterable.py', 'deserializers/default_tuple.py', 'deserializers/default_dict.py'
SL, SI, ST, SD = 'serializers/default_list.py', 'serializers/default_iterable.py', 'serializers/default_tuple.py', 'serializers/default_dict.py'
m('s-list-tail', 'C05', 'bug', (SL, "return [serializer(elem, cls=inner_type, fork_inst=fork_inst, **kwargs_) for elem in obj]", "return [serializer(elem, cls=inner_type, fork_inst=fork_inst, **kwargs_) for elem in obj if elem is not None]"))
m('s-list-loop', 'C05', 'same', (SL, "    return [serializer(elem, cls=inner_type, fork_inst=fork_inst, **kwargs_) for elem in obj]", "    result = []\n    for elem in obj:\n        result.append(serializer(elem, cls=inner_type, fork_inst=fork_inst, **kwargs_))\n    return result"))
m('s-list-helper', 'C05', 'same', (SL, "    return [serializer(elem, cls=inner_type, fork_inst=fork_inst, **kwargs_) for elem in obj]", "    return _dump_all(obj, serializer, inner_type, fork_inst, kwargs_)\n\n\ndef _dump_all(obj, serializer, inner_type, fork_inst, kwargs_):\n    return list(map(lambda elem: serializer(elem, cls=inner_type, fork_inst=fork_inst, **kwargs_), obj))"))
m('s-iter-zip', 'C05', 'same', (SI, "        result = [dump(elem, cls=subclasses[i], **kwargs_)\n                  for i, elem in enumerate(obj)]", "        result = [dump(elem, cls=sub, **kwargs_)\n                  for elem, sub in zip(obj, subclasses)]"))
m('s-iter-short', 'C05', 'bug', (SI, "    if len(subclasses) != len(obj):", "    if len(subclasses) < len(obj):"))
m('s-iter-zipshort', 'C05', 'bug', (SI, "        result = [dump(elem, cls=subclasses[i], **kwargs_)\n                  for i, elem in enumerate(obj)]", "        result = [dump(elem, cls=sub, **kwargs_)\n                  for elem, sub in zip(obj, subclasses)]"), (SI, "    if len(subclasses) != len(obj):", "    if len(subclasses) > len(obj):"))
m('s-tuple-ell', 'C05', 'same', (ST, "(get_args(cls)[0],) * len(obj)", "(get_args(cls)[0],) * max(len(obj), 1)"))
m('s-dict-key', 'C05', 'bug', (SD, "            if key_transformer:\n                key = key_transformer(key)\n            result[key] = dumped_elem", "            if key_transformer:\n                key = key_transformer(key)\n            result.setdefault(key, dumped_elem)"))
m('s-dict-strip', 'C05', 'bug', (SD, "if not (strip_nulls and dumped_elem is None):", "if not (strip_nulls and not dumped_elem):"))
m('s-dict-items', 'C05', 'same', (SD, "    for key in obj:\n        obj_ = obj[key]\n", "    for key, obj_ in obj.items():\n"))
m('s-dict-cont', 'C05', 'same', (SD, "        if not (strip_nulls and dumped_elem is None):\n            if key_transformer:\n                key = key_transformer(key)\n            result[key] = dumped_elem", "        if strip_nulls and dumped_elem is None:\n            continue\n        result[key_transformer(key) if key_transformer else key] = dumped_elem"))
m('s-nt-loop', 'C05', 'same', (ST, "    result = {field_name: dump(getattr(obj, field_name), **kwargs)\n              for field_name in obj._fields}", "    result = {}\n    for field_name in obj._fields:\n        value = getattr(obj, field_name)\n        result[field_name] = dump(value, **kwargs)"))
LI, VA, FO, EX, CM, CA = '_lizers_impl.py', '_validation.py', '_fork_impl.py', '_extra_impl.py', '_common_impl.py', '_cache.py'
m('r-val-clear', 'C10', 'bug', (VA, "    clear()  # Any cached validator may be outdated by now.\n", ""))
m('r-ser-clear-early', 'C10', 'bug', (LI, "    if isinstance(cls, Sequence):\n        for cls_ in cls:\n            set_serializer", "    clear()\n    if isinstance(cls, Sequence):\n        for cls_ in cls:\n            set_serializer"), (LI, "    clear()  # Any cached serializer may be outdated by now.\n", ""))
m('r-clear-first', 'C10', 'bug', (CA, "    for w in _Wrapper.instances:\n        w.__call__.cache_clear()", "    pass"))
m('r-clear-elif', 'C10', 'same', (LI, "        fork_inst._serializers['nonetype'] = func\n    clear()", "        fork_inst._serializers['nonetype'] = func\n    result = clear()\n    return result\n    clear()"))
m('r-fork-share', 'C09', 'bug', (FO, "fork_inst._suppressed_warnings.copy()", "fork_inst._suppressed_warnings"))
m('r-fork-noval', 'C09', 'bug', (FO, "    result._validators = fork_inst._validators.copy()\n", ""))
m('r-fork-cross', 'C09', 'bug', (FO, "result._deserializers = fork_inst._deserializers.copy()", "result._deserializers = fork_inst._serializers.copy()"))
m('r-fork-ctor', 'C09', 'same', (FO, "fork_inst._suppressed_warnings.copy()", "set(fork_inst._suppressed_warnings)"), (FO, "fork_inst._classes_serializers.copy()", "list(fork_inst._classes_serializers)"), (FO, "fork_inst._serializers.copy()", "dict(fork_inst._serializers)"))
m('r-fork-unpack', 'C09', 'same', (FO, "fork_inst._classes_serializers.copy()", "[*fork_inst._classes_serializers]"), (FO, "fork_inst._serializers.copy()", "{**fork_inst._serializers}"))
m('r-seq-fork', 'C09 C11', 'bug', (LI, "            set_deserializer(func, cls_, high_prio, fork_inst)", "            set_deserializer(func, cls_, high_prio)"))
m('r-annglobal', 'C09', 'bug', (EX, "    fork_inst._announced_classes[cls_name] = cls", "    StateHolder._announced_classes[cls_name] = cls"))
m('r-prio', 'C11', 'bug', (LI, "        index = 0 if high_prio else len(fork_inst._classes_deserializers)", "        index = 0 if high_prio else -1"))
m('r-parents-last', 'C11', 'bug', (LI, "parents[0]", "parents[-1]"))
m('r-parents-next', 'C11', 'same', (LI, "            if issubclass(naked_cls, cls_):\n                parents.append(cls_)", "            if issubclass(naked_cls, cls_):\n                parents.append(cls_)\n                break"))
m('r-seq-skip', 'C11', 'bug', (LI, "        for cls_ in cls:\n            set_serializer(", "        for cls_ in cls[1:]:\n            set_serializer("))
m('r-super', 'C11', 'bug', (LI, "    if not lizer and hasattr(cls, '__supertype__'):", "    if hasattr(cls, '__supertype__'):"))
m('r-helper', 'C09 C10 C11', 'same', (LI, "        index = 0 if high_prio else len(fork_inst._classes_serializers)\n        fork_inst._classes_serializers.insert(index, cls)\n        cls_name = get_class_name(cls, fully_qualified=True)\n        fork_inst._serializers[cls_name.lower()] = func\n", "        _register(func, cls, high_prio, fork_inst._serializers, fork_inst._classes_serializers)\n"), (LI, "def set_deserializer(", "def _register(func, cls, high_prio, lizers, classes):\n    cls_name = get_class_name(cls, fully_qualified=True)\n    lizers[cls_name.lower()] = func\n    if high_prio:\n        classes.insert(0, cls)\n    else:\n        classes.append(cls)\n\n\ndef set_deserializer("))
MTF = '_multitasking.py'
m('t-nojoin', 'C08', 'bug', (MTF, "    for task in tasks_instances:\n        task.join()\n\n    result = list(result)", "    result = list(result)\n    for task in tasks_instances:\n        task.join()"))
m('t-joinfirst', 'C08', 'bug', (MTF, "    for task in tasks_instances:\n", "    for task in tasks_instances[1:]:\n"))
m('t-shift', 'C08', 'bug', (MTF, "        list_to_fill[i_] = loaded", "        list_to_fill[i_ - start] = loaded"))
m('t-swallow', 'C08', 'bug', (MTF, "            loaded = _Failure(str(err))", "            loaded = None"))
m('t-firstfail', 'C08', 'bug', (MTF, "    for index, elem in enumerate(result):\n", "    for index, elem in enumerate(result[:-1]):\n"))
m('t-left0', 'C08', 'bug', (MTF, "    tasks_left = tasks - tasks_used or 1", "    tasks_left = tasks - tasks_used"))
m('t-fork', 'C08', 'bug', (L, "        result = multi_task(load, obj, tasks, task_type, cls_,\n                            fork_inst=fork_inst, **kwargs_)", "        result = multi_task(load, obj, tasks, task_type, cls_,\n                            **kwargs_)"))
m('t-ceil', 'C08', 'same', (MTF, "    slice_size = int(len(obj) / tasks_used)", "    slice_size = len(obj) // tasks_used"))
m('t-divmod', 'C08', 'same', (MTF, "    slice_size = int(len(obj) / tasks_used)\n    rest_size = len(obj) % tasks_used", "    slice_size, rest_size = divmod(len(obj), tasks_used)"))
m('t-comp', 'C08', 'same', (MTF, "        if i == tasks_used - 1:\n            end += rest_size\n", "        end = len(obj) if i == tasks_used - 1 else end\n"))
m('t-any', 'C08', 'same', (MTF, "    result = list(result)\n    for index, elem in enumerate(result):\n", "    result = [x for x in result]\n    for index in range(len(result)):\n        elem = result[index]\n"))
m('t-robin', 'C08', 'same', (MTF, "    for i_ in range(start, end):", "    for i_ in reversed(range(start, end)):"))

DT = '_datetime_impl.py'
m('dt-sign', 'C17', 'bug', (DT, "operator = '+' if offset_s >= 0 else '-'", "operator = '+' if offset_s > 0 else '-'"))
m('dt-noabs', 'C17', 'bug', (DT, "offset_m = int((abs(offset_s) / 60) % 60)", "offset_m = int((offset_s / 60) % 60)"))
m('dt-hours-only', 'C17', 'bug', (DT, "mins = int(mins_str) * factor", "mins = int(mins_str)"))
m('dt-frac', 'C17', 'bug', ('deserializers/default_datetime.py', "frac[0:7]", "frac[0:4]"))
m('dt-z', 'C17', 'bug', (DT, "or tzone.utcoffset(None)):", "and tzone.utcoffset(None)):"))
m('dt-same', 'C17', 'same', (DT, "    offset_h = int(abs(offset_s) / 3600)\n    offset_m = int((abs(offset_s) / 60) % 60)", "    minutes = int(abs(offset_s) / 60)\n    offset_h, offset_m = minutes // 60, minutes % 60"))
m('dt-same2', 'C17', 'same', (DT, "offset = offset_t.strftime('{}%H:%M'.format(operator))", "offset = '{}{:02d}:{:02d}'.format(operator, offset_h, offset_m)"))
m('dt-same3', 'C17', 'same', (DT, "    splitter, factor = ('+', 1) if '+' in tim_str else ('-', -1)", "    if '+' in tim_str:\n        splitter, factor = '+', 1\n    else:\n        splitter, factor = '-', -1"))
m('j-tuple', 'C06', 'bug', ('serializers/default_complex.py', "{'real': obj.real, 'imag': obj.imag}", "obj.real, obj.imag"))
m('j-decimal', 'C06', 'bug', ('serializers/default_decimal.py', "return str(obj)", "return obj if obj.is_nan() else str(obj)"))
m('j-dictkey', 'C06', 'undecided', ('_common_impl.py', "JSON_KEYS = (str, int, float, bool, NoneType)", "JSON_KEYS = (str, int, float, bool, NoneType, bytes)"))
m('j-tz', 'C06', 'bug', ('serializers/default_timezone.py', "'offset': offset", "'offset': obj.utcoffset(None)"))
m('j-prim', 'C06', 'bug', ('serializers/default_primitive.py', "    result = obj\n", "    result = (obj,)\n"))
KTF = '_key_transformers.py'
m('k-same1', 'C18', 'same', (KTF, "    camelcase_str = camelcase(str_)\n    return camelcase_str[:1].upper() + camelcase_str[1:]", "    result = camelcase(str_)\n    if not result:\n        return result\n    return result[0].upper() + result[1:]"))
m('k-same2', 'C18', 'same', (KTF, "    if len(splitted) > 1:\n        str_ = ''.join([x.title() for x in splitted])\n    return str_[:1]", "    if len(splitted) != 1:\n        str_ = ''.join(x.title() for x in splitted)\n    return str_[:1]"))
m('k-index', 'C18', 'bug', (KTF, "    return camelcase_str[:1].upper()", "    return camelcase_str[0].upper()"))
m('k-dash', 'C18', 'undecided', (KTF, "    str_ = str_.replace('-', '_')\n    str_ = str_[:1]", "    str_ = str_[:1]"))

# ---- C23: the key section
SDD = 'serializers/default_dict.py'
m('ks-bump', 'C23', 'bug', (SDD, "while (key_hash in obj_ or key_hash in obj_['-keys']\n                   or key_hash in source):", "while (key_hash in obj_ or key_hash in obj_['-keys']):"))
m('ks-section', 'C23', 'bug', (SDD, "                or dumped_key in obj.get('-keys', {})):", "                ):"))
m('ks-name', 'C23', 'bug', (SDD, "                or dumped_key == '-keys'\n", ""))
m('ks-store', 'C23', 'bug', (SDD, "obj_['-keys'][key_hash] = dumped_key", "obj_['-keys'][key_hash] = key_hash"))
m('ks-fresh', 'C23', 'bug', (SDD, "obj_ = {**obj}", "obj_ = {'-keys': obj.get('-keys', {})}"))
m('ks-while', 'C23', 'bug', (SDD, "key_hash += 1", "key_hash += 1; break"))
m('ks-same', 'C23', 'same', (SDD, "obj_.setdefault('-keys', {})", "if '-keys' not in obj_:\n                obj_['-keys'] = {}"))
m('ks-same2', 'C23', 'same', (SDD, "    result = None\n    if not _is_valid_json_key(key):", "    result = None\n    if isinstance(key, JSON_KEYS):\n        return None\n    if True:"))
m('ks-same3', 'C23', 'same', (SDD, "            while (key_hash in obj_ or key_hash in obj_['-keys']\n                   or key_hash in source):\n                key_hash += 1", "            def taken(h):\n                return h in obj_ or h in obj_['-keys'] or h in source\n            while taken(key_hash):\n                key_hash += 1"))

# ---- C19: verbose dumps
SO_, CI, DO_, LI = 'serializers/default_object.py', '_common_impl.py', 'deserializers/default_object.py', '_load_impl.py'
m('vb-precedence', 'C19', 'bug', (CI, "order = [cls_from_meta, cls, cls_from_type]", "order = [cls, cls_from_meta, cls_from_type]"))
m('vb-inferred', 'C19', 'bug', (LI, "'_inferred_cls': cls is not original_cls,", "'_inferred_cls': cls is original_cls,"))
m('vb-hints', 'C19', 'bug', (LI, "        kwargs_['meta_hints'] = meta_hints\n", "        kwargs_.setdefault('meta_hints', meta_hints)\n"))
m('vb-prefix', 'C19', 'bug', (DO_, "if key == cls_key or key.startswith(cls_key + '/')", "if key.startswith(cls_key)"))
m('vb-path', 'C19', 'bug', (SO_, "'{}{}/'.format(prefix, attr),", "'{}/'.format(attr),"))
m('vb-meta', 'C19', 'bug', (SO_, "if attr != META_ATTR and isinstance(obj_[attr], dict):", "if attr != '-cls' and isinstance(obj_[attr], dict):"))
m('vb-root', 'C19', 'bug', (SO_, "        collection_of_types['/'] = cls_name\n", "        collection_of_types.setdefault('/', None)\n"))
m('vb-time', 'C19', 'bug', (SO_, "if Verbosity.WITH_DUMP_TIME in verbose:", "if verbose is not Verbosity.WITH_NOTHING:"))
m('vb-nested', 'C19', 'bug', (SO_, "if not kwargs.get('_store_cls'):", "if not kwargs_.get('_store_cls'):"))
m('vb-mark', 'C19', 'bug', (SO_, "if kwargs.get('_store_cls', None) and isinstance(result, dict):", "if isinstance(result, dict):"))
m('vb-strip', 'C19', 'bug', (SO_, "    if '-cls' in obj:\n        del obj['-cls']\n", "    if not cls_name and '-cls' in obj:\n        del obj['-cls']\n"))
m('vb-same', 'C19', 'same', (CI, "    for elem in order:\n        if elem:\n            return elem\n", "    return next((elem for elem in order if elem), None)\n"))
m('vb-same2', 'C19', 'same', (SO_, "        collection_of_types['/'] = cls_name\n        obj[META_ATTR]['classes'] = collection_of_types\n", "        meta = obj[META_ATTR]\n        meta['classes'] = {**collection_of_types, '/': cls_name}\n"))
m('vb-same3', 'C19', 'same', (SO_, "            collection_of_types_['{}{}'.format(prefix, attr)] = attr_class\n", "            path = prefix + str(attr)\n            collection_of_types_[path] = attr_class\n"))
m('vb-same4', 'C19', 'same', (DO_, "    return {\n        _remove_prefix(cls_key, key): meta_hints[key]\n        for key in meta_hints\n        if key == cls_key or key.startswith(cls_key + '/')\n    }\n", "    result = {}\n    for key, hint in meta_hints.items():\n        if key == cls_key:\n            result['/'] = hint\n        elif key.startswith(cls_key + '/'):\n            result[key[len(cls_key):]] = hint\n    return result\n"))
m('vb-same5', 'C19', 'same', (SO_, "    if verbose is Verbosity.WITH_NOTHING:\n        return obj\n", "    if not verbose:\n        return obj\n"))
