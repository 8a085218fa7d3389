MUTANTS = [
 ("C01", "bug", "ticdatfactory", ('verify(not self._has_been_used,\n               "The default values can\'t be changed after a TicDatFactory has been used.")\n        verify(table in', 'verify(table in'), "guard dropped"),
 ("C01", "bug", "pandatfactory", ('superself._trigger_has_been_used()', 'if init_tables:\n                    superself._trigger_has_been_used()'), "mark conditional"),
 ("C01", "bug", "ticdatfactory", ('        self._has_been_used[:] = [True]', '        if self._foreign_keys:\n            self._has_been_used[:] = [True]'), "mark conditional"),
 ("C02", "bug", "ticdatfactory", ('verify(utils.acceptable_default(default_value), "%s can not be used as a default value"%default_value)\n        self._default_values[table][field] = default_value', 'self._default_values[table][field] = default_value\n        verify(utils.acceptable_default(default_value), "%s can not be used as a default value"%default_value)'), ""),
 ("C03", "bug", "ticdatfactory", ('return deep_freeze(self._default_values)', 'return FrozenDict(self._default_values)'), "shallow"),
 ("C03", "bug", "ticdatfactory", ('return utils.FrozenDict(self._tooltips)', 'return self._tooltips'), ""),
 ("C03", "bug", "utils", ('{deep_freeze(k) : deep_freeze(v) for k,v in x.items()}', '{deep_freeze(k) : v for k,v in x.items()}'), ""),
 ("C03", "bug", "utils", ('return tuple(map(deep_freeze, x))', 'return list(map(deep_freeze, x))'), ""),
 ("C03", "ok", "utils", ('return tuple(map(deep_freeze, x))', 'return tuple(deep_freeze(y) for y in x)'), ""),
 ("C04", "bug", "utils", ('        self._dataFrozen = True # need to do first, obviously\n', ''), "frozen dict not frozen"),
 ("C04", "bug", "utils", ('    def clear(self) :\n        if not getattr(self, "_dataFrozen", False) :\n            return super(FreezeableDict, self).clear()\n        raise TicDatError("Can\'t edit a frozen " + self.__class__.__name__)\n', ''), ""),
 ("C04", "bug", "utils", ('            if getattr(self, "_dataFrozen", False) :\n                raise TicDatError("Can\'t edit a frozen TicDatDataRow")\n            self._data[fieldtoindex[key]] = value', '            self._data[fieldtoindex[key]] = value\n            if getattr(self, "_dataFrozen", False) :\n                raise TicDatError("Can\'t edit a frozen TicDatDataRow")'), ""),
 ("C04", "bug", "ticdatfactory", ('for t in set(superself.all_tables).difference(superself.generic_tables):\n                    _t = getattr(self, t)', 'for t in set(superself.all_tables).difference(superself.generic_tables):\n                    _t = getattr(self, t)\n                    if not len(_t): continue'), ""),
 ("C04", "bug", "ticdatfactory", ('_all_data_dicts", ())', 'allDataDicts", ())'), ""),
 ("C04", "bug", "ticdatfactory", ('                                v._attributesFrozen = True\n', ''), ""),
 ("C04", "bug", "ticdatfactory", ('setattr(self, t, tuple(_t))', 'setattr(self, t, list(_t))'), ""),
 ("C04", "bug", "utils", ('if key == "_dataFrozen" and value :', 'if key == "_dataFrozen" :'), ""),
 ("C04", "ok", "utils", ('if not getattr(self, "_dataFrozen", False) :\n            return super(FreezeableDict, self).__delitem__(key)\n        raise TicDatError("Can\'t edit a frozen " + self.__class__.__name__)', 'if getattr(self, "_dataFrozen", False):\n            raise TicDatError("Can\'t edit a frozen " + self.__class__.__name__)\n        return super(FreezeableDict, self).__delitem__(key)'), ""),

 ("C10", "bug", "csvtd", ("        return self.tic_dat_factory._general_read_cell(table, field, _inner_rtn(x))", "        if table in self.tic_dat_factory.generator_tables:\n            return _inner_rtn(x)\n        return self.tic_dat_factory._general_read_cell(table, field, _inner_rtn(x))"), ""),
 ("C10", "bug", "sqlitetd", ("yield [self._read_data_cell(table, f, x) for f, x in zip(tdf.data_fields[table], row)]", "yield list(row)"), "generator"),
 ("C10", "bug", "sqlitetd", ("pk = tuple(self._read_data_cell(table, f, x) for f, x in zip(pkfs, row[:len(pkfs)]))", "pk = tuple(row[:len(pkfs)])"), "pk"),
 ("C10", "bug", "sqlitetd", ('self.tic_dat_factory.infinity_io_flag == "N/A" and ', ''), "inf text"),
 ("C10", "bug", "jsontd", ("rtn[t].append({f: tdf._general_read_cell(t, f, x) for f, x in row.items()})", "rtn[t].append(dict(row))"), ""),
 ("C10", "bug", "jsontd", ("pdf = PanDatFactory.create_from_full_schema(self.tic_dat_factory.schema(include_ancillary_info=True))", "pdf = PanDatFactory(**self.tic_dat_factory.schema())"), ""),
 ("C10", "bug", "xls", ("rtn[t] = utils.DataFrame({f: [tdf._general_read_cell(t, f, x) for x in df[f]] for f in df.columns})", "rtn[t] = df"), "fixed defect"),
 ("C10", "bug", "pgtd", ("rtn[table].append([self._read_data_cell(table, f, x) for f, x in zip(tdf.data_fields[table], row)])", "rtn[table].append(list(row))"), ""),
 ("C10", "bug", "mdb", ("yield [tdf._general_read_cell(table, f, x) for f, x in zip(tdf.data_fields[table], row)]", "yield row"), ""),
 ("C10", "bug", "jsontd", ("rtn[t].append([tdf._general_read_cell(t, f, x) for f, x in zip(all_fields, row)])", "rtn[t].append([tdf._general_read_cell('parameters', f, x) for f, x in zip(all_fields, row)])"), ""),
 ("C10", "ok", "jsontd", ("rtn[t].append([tdf._general_read_cell(t, f, x) for f, x in zip(all_fields, row)])", "adjusted = []\n                    for i, x in enumerate(row[:len(all_fields)]):\n                        adjusted.append(tdf._general_read_cell(t, all_fields[i], x))\n                    rtn[t].append(adjusted)"), ""),
 ("C10", "ok", "sqlitetd", ("yield [self._read_data_cell(table, f, x) for f, x in zip(tdf.data_fields[table], row)]", "yield tuple(map(lambda p: self._read_data_cell(table, p[0], p[1]), zip(tdf.data_fields[table], row)))"), ""),
 ("C14", "bug", "sqlitetd", ("            if freeze_it:\n                return self.tic_dat_factory.freeze_me(rtn)\n            return rtn\n", "            return rtn\n"), ""),
 ("C14", "bug", "csvtd", ("        rtn = self.tic_dat_factory._parameter_table_post_read_adjustment(rtn)\n", ""), ""),
 ("C14", "bug", "jsontd", ("return self.create_tic_dat(json_file_path, freeze_it=freeze_it, from_pandas=True)", "return self.create_tic_dat(json_file_path, from_pandas=True)"), ""),
 ("C14", "bug", "jsontd", ("return pdf.copy_to_tic_dat(_rtn, freeze_it=freeze_it)", "return pdf.copy_to_tic_dat(_rtn)"), ""),
 ("C14", "ok", "csvtd", ("        if freeze_it:\n            return self.tic_dat_factory.freeze_me(rtn)\n        return rtn\n", "        if freeze_it:\n            self.tic_dat_factory.freeze_me(rtn)\n        return rtn\n"), ""),
 ("C14", "ok", "csvtd", ("        if freeze_it:\n            return self.tic_dat_factory.freeze_me(rtn)\n        return rtn\n", "        return self.tic_dat_factory.freeze_me(rtn) if freeze_it else rtn\n"), ""),
 ("C14", "ok", "csvtd", ("        if freeze_it:\n            return self.tic_dat_factory.freeze_me(rtn)\n        return rtn\n", "        if not freeze_it:\n            return rtn\n        return self.tic_dat_factory.freeze_me(rtn)\n"), ""),
 ("C07", "bug", "csvtd", ("        def file_path(t):\n            return os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + \".csv\")\n        if not allow_overwrite:\n            for t in tdf.all_tables :\n                f = file_path(t)", "        def file_path(t):\n            return os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + \".csv\")\n        if not allow_overwrite:\n            for t in tdf.all_tables :\n                f = os.path.join(dir_path, t + '.csv')"), "fixed defect"),
 ("C07", "ok", "sqlitetd", ("                con.execute(\"Delete from [%s]\"%t) if allow_overwrite else None\n", "                con.execute(\"Delete from [%s]\"%t)\n"), ""),
 ("C07", "ok", "sqlitetd", ("                con.execute(\"Delete from [%s]\"%t) if allow_overwrite else None\n", "                if allow_overwrite:\n                    con.execute(\"Delete from [%s]\"%t)\n"), ""),
 ("C07", "bug", "jsontd", ("and not allow_overwrite),", "and not (allow_overwrite or verbose)),"), ""),
 ("C08", "bug", "csvtd", ("        if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :\n            raise TicDatError(\"Not a valid TicDat object for this schema : \" + \" : \".join(msg))\n        case", "        case"), ""),
 ("C09", "bug", "csvtd", ("writer.writerow(infinty_io_dict(dict(data_row, **primaryKeyDict)))", "writer.writerow(dict(infinty_io_dict(data_row), **primaryKeyDict))"), ""),
 ("C09", "ok", "csvtd", ("writer.writerow(infinty_io_dict(dict(data_row, **primaryKeyDict)))", "full_row = dict(data_row)\n                         full_row.update(primaryKeyDict)\n                         writer.writerow(infinty_io_dict(full_row))"), ""),
 ("C09", "bug", "mdb", ("data_row = tuple(write_data(f, x) for f, x in zip(fields, data_row))", "data_row = tuple(write_data(f, x) for f, x in zip(_brackets(fields), data_row))"), "fixed defect"),
 ("C09", "bug", "pandatio", ("        pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        jdict = {}", "        jdict = {}"), ""),

 ("C18", "bug", "sqlitetd", ("con.executescript(f.read())", "[con.execute(_) for _ in f.read().split(';')]"), "fixed defect"),
 ("C18", "bug", "sqlitetd", ("isinstance(x, (datetime.date, datetime.timedelta))", "isinstance(x, datetime.datetime)"), "fixed defect"),
 ("C18", "bug", "sqlitetd", ("return \"'%s'\"%_fix_str(x)", "return \"'%s'\"%x"), ""),
 ("C18", "bug", "sqlitetd", ("    if stringish(x):\n        return", "    if stringish(x) and \"'\" in x:\n        return"), ""),
 ("C18", "bug", "sqlitetd", ("map(_insert_format, v) if as_sql else [\"?\"]*len(sqldatarow)", "map(_insert_format, v) if as_sql or len(v) > 900 else [\"?\"]*len(sqldatarow)"), ""),
 ("C18", "bug", "sqlitetd", ("map(_insert_format, v) if as_sql else", "map(repr, v) if as_sql else"), ""),
 ("C18", "bug", "sqlitetd", ("con.execute(\"Select [%s] from [%s]\"%(field, sql_table))", "con.execute(\"Select %s from [%s]\"%(field, sql_table))"), ""),
 ("C18", "bug", "sqlitetd", ("(t, \",\".join(_brackets(k))", "(t, \",\".join(k)"), ""),
 ("C18", "bug", "pgtd", ("fields = list(map(_pg_name, fields))\n", "fields = list(fields)\n"), ""),
 ("C18", "bug", "pgtd", ("({','.join(map(_pg_name, nativefields))})", "({','.join(nativefields)})"), ""),
 ("C18", "bug", "mdb", ("con.cursor().execute(str, data_row)\n", "con.cursor().execute(str.replace('?', '%s') % data_row)\n"), ""),
 ("C18", "ok", "sqlitetd", ("    if stringish(x):\n        return \"'%s'\"%_fix_str(x)", "    if stringish(x):\n        fixed = _fix_str(x)\n        return \"'\" + fixed + \"'\""), ""),
 ("C18", "ok", "sqlitetd", ("con.executescript(f.read())", "script = f.read()\n                con.executescript(script)"), ""),
 ("C28", "bug", "sqlitetd", ("verify(os.path.exists(db_file_path), \"%s isn't a valid file path\"%db_file_path)", "verify(not os.path.isdir(db_file_path), \"%s isn't a valid file path\"%db_file_path)"), ""),
 ("C28", "bug", "pandatio", ("verify(os.path.exists(db_file_path) and not os.path.isdir(db_file_path),", "verify(not os.path.isdir(db_file_path),"), ""),
 ("C28", "bug", "sqlitetd", ("                        con.execute(\"Select [%s] from [%s]\"%(field, sql_table))", "                        con.execute(\"Select [%s] from [%s]\"%(field, sql_table)) if sql_table == table else con.execute(\"Alter table [%s] rename to [%s]\" % (sql_table, table))"), ""),
 ("C28", "bug", "jsontd", ("with open(path_or_buf, \"r\") as fp:", "with open(path_or_buf, \"a+\") as fp:"), ""),
 ("C28", "bug", "sqlitetd", ("with sql.connect(\":memory:\") as con:", "with sql.connect(sql_file_path + '.db') as con:"), ""),
 ("C28", "ok", "sqlitetd", ("verify(os.path.exists(db_file_path), \"%s isn't a valid file path\"%db_file_path)", "if not os.path.exists(db_file_path):\n            raise TDE('nope')"), ""),
 ("C11", "bug", "ticdatfactory", ("        if t == \"parameters\": # infinity flagging doesn't apply to parameters table. SPEED IS IMPORTANT", "        if t == \"parameters\" and self._parameters: # SPEED"), "revert"),
 ("C11", "bug", "ticdatfactory", ("return max(min(x, self.infinity_io_flag), -self.infinity_io_flag)", "return max(-self.infinity_io_flag, min(self.infinity_io_flag, x))"), "NaN"),
 ("C11", "bug", "ticdatfactory", ("return max(min(x, self.infinity_io_flag), -self.infinity_io_flag)", "return min(x, self.infinity_io_flag)"), ""),
 ("C11", "ok", "ticdatfactory", ("return max(min(x, self.infinity_io_flag), -self.infinity_io_flag)", "if x == float('inf'):\n                return self.infinity_io_flag\n            if x == -float('inf'):\n                return -self.infinity_io_flag"), ""),
 ("C11", "ok", "ticdatfactory", ("return max(min(x, self.infinity_io_flag), -self.infinity_io_flag)", "flag = self.infinity_io_flag\n            if not abs(x) > flag:\n                return x\n            return flag if x > 0 else -flag"), ""),
 ("C11", "bug", "ticdatfactory", ("            if x >= self.infinity_io_flag:\n                return float(\"inf\")", "            if x > self.infinity_io_flag:\n                return float(\"inf\")"), ">="),
 ("C11", "bug", "ticdatfactory", ("            if x <= -self.infinity_io_flag:\n                return float(\"-inf\")", "            if x == -self.infinity_io_flag:\n                return float(\"-inf\")"), "<="),
 ("C11", "bug", "ticdatfactory", ("if utils.numericish(self.infinity_io_flag) and utils.numericish(x):\n            if x >=", "if utils.numericish(self.infinity_io_flag) and isinstance(x, int):\n            if x >="), ""),
 ("C11", "bug", "ticdatfactory", ("        if x is None and self.infinity_io_flag is None and utils.numericish(self._none_as", "        if not x and self.infinity_io_flag is None and utils.numericish(self._none_as"), "zero"),
 ("C11", "bug", "ticdatfactory", ("return float(\"inf\") * self._none_as_infinity_bias(t, f)", "return float(\"inf\")"), "sign"),
 ("C11", "bug", "ticdatfactory", ("(self._none_as_infinity_bias(t, f) or float(\"nan\"))*float(\"inf\") == x", "utils.numericish(x) and abs(x) == float(\"inf\")"), ""),
 ("C11", "bug", "pandatfactory", ("for t in set(self.all_tables).difference([\"parameters\"]): # parameters table is handled differently\n            df = getattr(rtn, t)", "for t in set(self.all_tables).difference([\"parameters\"], self.generic_tables):\n            df = getattr(rtn, t)"), "generic"),
 ("C11", "bug", "pandatfactory", ("for t in set(self.all_tables).difference([\"parameters\"]): # parameters table is handled differently\n            df = getattr(dat, t)", "for t in self.all_tables:\n            df = getattr(dat, t)"), "parameters"),
 ("C11", "bug", "pandatfactory", ("            return float(\"inf\") if x >= self.infinity_io_flag else \\\n                (-float(\"inf\") if x <= -self.infinity_io_flag else x)", "            return float(\"inf\") if x >= self.infinity_io_flag else x"), ""),
 ("C11", "ok", "pandatfactory", ("            return float(\"inf\") if x >= self.infinity_io_flag else \\\n                (-float(\"inf\") if x <= -self.infinity_io_flag else x)", "            flag = self.infinity_io_flag\n            if -flag < x < flag or pd.isnull(x):\n                return x\n            return float(\"inf\") if x > 0 else -float(\"inf\")"), ""),
 ("C11", "bug", "pandatfactory", ("fixme = apply(df, lambda row: utils.numericish(row[f]) and row[f] <= -self.infinity_io_flag)", "fixme = apply(df, lambda row: utils.numericish(row[f]) and row[f] < -self.infinity_io_flag and row[f] != -float('inf'))"), ""),
 ("C11", "ok", "pandatfactory", ("fixme = apply(df, lambda row: utils.numericish(row[f]) and row[f] <= -self.infinity_io_flag)", "fixme = apply(df, lambda row: row[f] == -float('inf'))"), ""),
 ("C11", "bug", "pandatfactory", ("                    if _safe_any(fixme):\n                        df.loc[fixme, f] = -self.infinity_io_flag", "                    elif_ = _safe_any(fixme)\n                    if elif_ and t in self.data_types:\n                        df.loc[fixme, f] = -self.infinity_io_flag"), ""),
 ("C11", "bug", "pandatfactory", ("all_fields = self._all_fields(t) or tuple(df.columns) # generic tables have whatever columns they have\n            fields_w_issues", "all_fields = self.data_fields[t] or tuple(df.columns)\n            fields_w_issues"), "pk fields"),
 ("C11", "bug", "pandatfactory", ("                        if row[f] == float(\"inf\") * self._none_as_infinity_bias(t, f):\n                            fields_w_issues.add(f)", "                        if row[f] == float(\"inf\"):\n                            fields_w_issues.add(f)"), "-inf"),
 ("C11", "bug", "pandatfactory", ("        if self.infinity_io_flag == \"N/A\" and not self.parameters:\n            return rtn", "        if not self.infinity_io_flag or self.infinity_io_flag == \"N/A\" and not self.parameters:\n            return rtn"), "None flag"),
 ("C11", "bug", "pandatfactory", ("                    df[f] = df[f].apply(lambda x: self._none_as_infinity_bias(t, f) * float(\"inf\")\n                                        if pd.isnull(x) else x)", "                    df[f] = df[f].apply(lambda x: float(\"inf\")\n                                        if pd.isnull(x) else x)"), "sign"),
 ("C11", "ok", "pandatfactory", ("                    df[f] = df[f].apply(lambda x: self._none_as_infinity_bias(t, f) * float(\"inf\")\n                                        if pd.isnull(x) else x)", "                    df[f] = df[f].fillna(self._none_as_infinity_bias(t, f) * float(\"inf\"))"), ""),
 ("C11", "bug", "pandatfactory", ("if fld_type and fld_type.number_allowed and not fld_type.valid_data(None):", "if fld_type and fld_type.number_allowed:"), "nullable"),
 ("C11", "bug", "ticdatfactory", ("                    for rtn in [1, -1]:\n                        if fld_type.valid_data(rtn * float(\"inf\")):\n                            return rtn", "                    return 1 if fld_type.max == float('inf') else -1"), ""),
 ("C11", "ok", "ticdatfactory", ("                    for rtn in [1, -1]:\n                        if fld_type.valid_data(rtn * float(\"inf\")):\n                            return rtn", "                    if fld_type.valid_data(float(\"inf\")):\n                        return 1\n                    if fld_type.valid_data(-float(\"inf\")):\n                        return -1"), ""),
 ("C11", "bug", "pandatfactory", [("                    df[f] = df[f].apply(_multitype_cell_adj)\n            if utils.numericish(self.infinity_io_flag):", "                    pass\n            if utils.numericish(self.infinity_io_flag):"), ("                if dt and dt.datetime:\n                    df[f] = df[f].apply(_datetime_cell_adj)", "                if dt and not dt.datetime and dt.strings_allowed and dt.number_allowed:\n                    df[f] = df[f].apply(_multitype_cell_adj)\n                if dt and dt.datetime:\n                    df[f] = df[f].apply(_datetime_cell_adj)")], "order"),
 ("C17", 'bug', 'ticdatfactory', ('                                rtn_pks[(table, field)].add(pk)\n                                if inc', '                                rtn_pks[(table, field)].add(pk) if full_row[field] not in rtn_pks else None\n                                if inc'), 'lost'),
 ("C17", 'bug', 'ticdatfactory', ('                    for pk  in _table:\n                        full_row = self._get_full_row(tic_dat, table, pk)\n                        for field, data_type in type_row.items():', '                    for pk, full_row in _table.items():\n                        for field, data_type in type_row.items():\n                            if field not in full_row: continue'), 'pk fields skipped'),
 ("C17", 'bug', 'utils', ('items() if v > 1}\n        if not rtn[t]:', 'items() if v > 2}\n        if not rtn[t]:'), 'thrice'),
 ("C17", 'bug', 'ticdatfactory', ('                                if not _ is True:\n                                    rtn[tbl, pn].add(PKEM(pk, str(_)))', '                                if _ and not _ is True:\n                                    rtn[tbl, pn].add(PKEM(pk, str(_)))'), 'falsy message'),
 ("C17", 'bug', 'ticdatfactory', ('                            for i, data_row in enumerate(_table):\n                                if handle_full_row_trips_end(i, data_row):\n                                    return\n        populate_rtn()\n        TPN', '                            for i, data_row in enumerate(_table):\n                                if handle_full_row_trips_end(i, data_row):\n                                    return\n                                break\n        populate_rtn()\n        TPN'), ''),
 ("C17", 'bug', 'ticdatfactory', ('if rpi.predicate_failure_response == "Boolean" and not _p(full_row):\n                                rtn[tbl, pn].add(pk)\n                                return inc_failures_trips_end()', 'if rpi.predicate_failure_response == "Boolean" and not _p(full_row):\n                                rtn[tbl, pn].add(pk)\n                                return True'), 'stops early'),
 ("C17", 'bug', 'pandatfactory', ('                        where_bad_rows = predicate_result.apply(lambda x: x is not True)', '                        where_bad_rows = predicate_result.apply(lambda x: x is False)'), ''),
 ("C17", 'bug', 'pandatfactory', ('                    rtn[TableField(table, field)] = _table[where_bad_rows].copy() if as_table else where_bad_rows', '                    rtn[TableField(table, field)] = _table[~where_bad_rows].copy() if as_table else where_bad_rows'), ''),
 ("C17", 'bug', 'pandatfactory', ('                    tmp_pdf._data_types[t][pk] = TypeDictionary.not_null()', '                    if t in tmp_pdf._data_types: tmp_pdf._data_types[t][pk] = TypeDictionary.not_null()'), ''),
 ("C17", 'bug', 'utils', ('        return not ((pd and pd.isnull(data)) or (data is None))', '        return data is not None'), 'NaN'),
 ("C17", 'ok', 'utils', ('        return not ((pd and pd.isnull(data)) or (data is None))', '        if data is None:\n            return False\n        return not (pd and pd.isnull(data))'), ''),
 ("C17", 'ok', 'utils', ('        rtn[t] = {k:v for k,v in rtn[t].items() if v > 1}\n        if not rtn[t]:\n            del(rtn[t])\n    return rtn\n\ndef find_duplicates_from', '        repeated = {}\n        for k, v in rtn[t].items():\n            if v >= 2:\n                repeated[k] = v\n        rtn[t] = repeated\n    return {t: v for t, v in rtn.items() if v}\n\ndef find_duplicates_from'), ''),
 ("C17", 'ok', 'ticdatfactory', ('                            for i, data_row in enumerate(_table):\n                                if handle_full_row_trips_end(i, data_row):\n                                    return\n        populate_rtn()\n        TPN', '                            for i in range(len(_table)):\n                                if handle_full_row_trips_end(i, _table[i]):\n                                    return\n        populate_rtn()\n        TPN'), ''),
 ("C17", 'ok', 'ticdatfactory', ('                            if rpi.predicate_failure_response == "Boolean" and not _p(full_row):\n                                rtn[tbl, pn].add(pk)\n                                return inc_failures_trips_end()\n', '                            if rpi.predicate_failure_response == "Boolean":\n                                good = _p(full_row)\n                                if good:\n                                    return False\n                                rtn[tbl, pn].add(pk)\n                                return inc_failures_trips_end()\n'), ''),
 ("C17", 'ok', 'pandatfactory', ('                        where_bad_rows = predicate_result.apply(lambda x: x is not True)', '                        where_bad_rows = predicate_result.apply(lambda x: not (x is True))'), ''),
 ("C16", 'bug', 'ticdatfactory', ('                        if exception_handling == "Unhandled":\n                            _p = lambda', '                        if exception_handling == "Unhandled" and rpi.predicate_kwargs_maker:\n                            _p = lambda'), ''),
 ("C16", 'bug', 'ticdatfactory', ('exception_handling = "Unhandled" if __debug__ else "Handled as Failure"', 'exception_handling = "Handled as Failure" if __debug__ else "Unhandled"'), ''),
 ("C16", 'bug', 'pandatfactory', ('                            except:\n                                return False\n                        bad_row', '                            except:\n                                return True\n                        bad_row'), ''),
 ("C16", 'bug', 'pandatfactory', ('                            except Exception as e:\n                                return f"Exception<{e}>"\n                        predicate =', '                            except (ValueError, TypeError) as e:\n                                return f"Exception<{e}>"\n                        predicate ='), 'narrowed'),
 ("C16", 'bug', 'ticdatfactory', ('                            if uses_convert and isinstance(converted_dat[0], str):\n                                _predicate_kwargs = converted_dat[0]\n                            elif', '                            if uses_convert and isinstance(converted_dat[0], str):\n                                _predicate_kwargs = {}\n                            elif'), ''),
 ("C16", 'ok', 'ticdatfactory', ('        if exception_handling == "__debug__":\n            exception_handling = "Unhandled" if __debug__ else "Handled as Failure"\n        data_row_predicates = {k: dict(v)', '        if exception_handling == "__debug__" and __debug__:\n            exception_handling = "Unhandled"\n        elif exception_handling == "__debug__":\n            exception_handling = "Handled as Failure"\n        data_row_predicates = {k: dict(v)'), ''),

 ("C15", "bug", "ticdatfactory", ('rtn.set_data_type(t, f, *dt)', 'rtn.set_data_type(t, f, *dt[:8])'), "part of the type"),
 ("C15", "bug", "ticdatfactory", ('        if "tooltips" in full_schema:\n', '        if "tooltips" in full_schema and dts:\n'), ""),
 ("C15", "bug", "pandatfactory", ('            for f,dt in fds.items():\n', '            for f,dt in fds.items():\n                if rtn.data_types.get(t, {}).get(f): continue\n'), ""),
 ("C15", "bug", "pandatfactory", ('                "tooltips": utils.make_tooltips_dict_json_friendly(self.tooltips)}', '                "tooltips": {}}'), ""),
 ("C15", "bug", "pandatfactory", ('                "duplicates_ticdat_init": self.duplicates_ticdat_init,\n', ''), ""),
 ("C15", "bug", "utils", ('        if isinstance(k, str):\n            rtn[k][""] = v\n', '        if isinstance(k, str):\n            continue\n'), "table tips lost"),
 ("C15", "bug", "utils", ('        if isinstance(k, str):\n            rtn[k][""] = v\n', '        if isinstance(k, str):\n            pass\n'), "table tips lost"),
 ("C15", "bug", "ticdatfactory", ('                                                   predicate_failure_response=rpi.predicate_failure_response)\n        rtn.enable', '                                                   )\n        rtn.enable'), "response lost"),
 ("C15", "bug", "pandatfactory", ('                                                   predicate_kwargs_maker=rpi.predicate_kwargs_maker,\n', ''), ""),
 ("C15", "bug", "ticdatfactory", ('        rtn.enable_foreign_key_links() if self._foreign_key_links_enabled else None\n', ''), ""),
 ("C15", "bug", "ticdatfactory", ('        rtn.enable_foreign_key_links() if self._foreign_key_links_enabled else None\n', '        if self._foreign_key_links_enabled and not table_restrictions:\n            rtn.enable_foreign_key_links()\n'), ""),
 ("C15", "bug", "ticdatfactory", ('            rtn._convert_dat[:] = self._convert_dat[:]\n', '            pass\n'), ""),
 ("C15", "bug", "utils", ('elif k in ["default_values", "data_types", "tooltips"]:\n            rtn[k] = {_k:dict(_v) for _k, _v in v.items() if _k in table_restrictions}', 'elif k in ["default_values", "data_types", "tooltips"]:\n            rtn[k] = {_k:dict(_v) for _k, _v in v.items() if _k in table_restrictions and len(_v) > 1}'), ""),
 ("C15", "bug", "utils", ('rtn[k] = v if k in table_restrictions else {}', 'rtn[k] = v if k in table_restrictions and not fields_to_remove else {}'), ""),
 ("C15", "bug", "utils", ('                    return all(good_mapping(_) for _ in fk.mapping)\n', ''), "compound keys lost"),
 ("C15", "bug", "utils", ('    if (table, field) in tdf_pdf.tooltips:\n        rtn.set_tooltip(table, new_field, tdf_pdf.tooltips[table, field])\n', ''), ""),
 ("C15", "bug", "utils", ('rtn.set_data_type(table, new_field, *tdf_pdf.data_types[table][field])', 'rtn.set_data_type(table, new_field, *tdf_pdf.data_types[table][field][:6])'), ""),
 ("C15", "bug", "utils", ('            return any(needs_renaming(_) for _ in mp) if containerish(mp) else False', '            return False'), ""),
 ("C15", "bug", "utils", ('return (table, field) in {(fk.native_table, mp.native_field), (fk.foreign_table, mp.foreign_field)}', 'return (table, field) == (fk.native_table, mp.native_field)'), "foreign side"),
 ("C15", "bug", "utils", ('full_schema = clone_a_anchillary_info_schema(full_schema, table_restrictions=set(tdf_pdf.all_tables))\n        full_schema["tables_fields"][table] = ', 'full_schema = clone_a_anchillary_info_schema(full_schema, table_restrictions=set(tdf_pdf.data_fields))\n        full_schema["tables_fields"][table] = '), ""),
 ("C15", "bug", "utils", ('    return tdf_pdf.clone(clone_factory=clone_factory)\n\ndef clone_remove', '    return clone_factory(tdf_pdf.schema())\n\ndef clone_remove'), ""),
 ("C15", "ok", "ticdatfactory", ('        for t,fdvs in (dvs or {}).items():\n            for f, dv in fdvs.items():\n                rtn.set_default_value(t,f,dv)\n', '        if dvs:\n            for t in dvs:\n                for f in dvs[t]:\n                    rtn.set_default_value(t, f, dvs[t][f])\n'), ""),
 ("C15", "ok", "pandatfactory", ('        for t,fdvs in (dvs or {}).items():\n            for f, dv in fdvs.items():\n                rtn.set_default_value(t,f,dv)\n', '        rtn.set_default_values(**(dvs or {}))\n'), ""),
 ("C15", "ok", "ticdatfactory", ('        rtn.enable_foreign_key_links() if self._foreign_key_links_enabled else None\n', '        if self._foreign_key_links_enabled:\n            rtn.enable_foreign_key_links()\n'), ""),
 ("C15", "ok", "utils", ('            rtn[k] = {_k:dict(_v) for _k, _v in v.items() if _k in table_restrictions}\n', '            rtn[k] = {}\n            for _k, _v in v.items():\n                if _k in table_restrictions:\n                    rtn[k][_k] = dict(_v)\n'), ""),
 ("C15", "ok", "utils", ('            rtn[k] = tuple(fk for fk in v if good_fk(fk))\n', '            kept = []\n            for fk in v:\n                if not good_fk(fk):\n                    continue\n                kept.append(fk)\n            rtn[k] = tuple(kept)\n'), ""),
 ("C15", "ok", "utils", ('    if field in tdf_pdf.default_values.get(table, {}):\n        rtn.set_default_value(table, new_field, tdf_pdf.default_values[table][field])\n', '    dvs = tdf_pdf.default_values.get(table, {})\n    if field in dvs:\n        rtn.set_default_value(table, new_field, dvs[field])\n'), ""),
 ("C15", "ok", "ticdatfactory", ('        if "infinity_io_flag" in full_schema:\n            rtn.set_infinity_io_flag(full_schema["infinity_io_flag"])\n        if "xlsx_trailing_empty_rows" in full_schema:\n            rtn.set_xlsx_trailing_empty_rows(full_schema["xlsx_trailing_empty_rows"])\n', '        for key, setter in (("infinity_io_flag", rtn.set_infinity_io_flag),\n                            ("xlsx_trailing_empty_rows", rtn.set_xlsx_trailing_empty_rows)):\n            if key in full_schema:\n                setter(full_schema[key])\n'), ""),
 ("C15", "ok", "pandatfactory", ('                    if not (rpi.predicate_kwargs_maker and no_copy_predicate_kwargs_maker):\n                        rtn.add_data_row_predicate(tbl, predicate=rpi.predicate, predicate_name=pn,\n                                                   predicate_kwargs_maker=rpi.predicate_kwargs_maker,\n                                                   predicate_failure_response=rpi.predicate_failure_response)\n', '                    if rpi.predicate_kwargs_maker and no_copy_predicate_kwargs_maker:\n                        continue\n                    rtn.add_data_row_predicate(tbl, rpi.predicate, pn, rpi.predicate_kwargs_maker, rpi.predicate_failure_response)\n'), ""),
 ("C21", "bug", "ticdatfactory", ("        for t,row_index in sorted(needs_removal, reverse=True):\n", "        for t,row_index in sorted(needs_removal):\n"), "positions"),
 ("C21", "bug", "ticdatfactory", [("        needs_removal = set()\n", "        needs_removal = []\n"), ("needs_removal.add((fk.native_table, failed_pk))", "needs_removal.append((fk.native_table, failed_pk))")], "twice"),
 ("C21", "bug", "ticdatfactory", ("                    if failed_pk in getattr(tic_dat, fk.native_table) :\n                        del(", "                    if True:\n                        del("), "KeyError"),
 ("C21", "bug", "ticdatfactory", ("            return self.remove_foreign_key_failures(tic_dat)\n", "            return self.remove_foreign_key_failures(tic_dat, propagate=False)\n"), "one level"),
 ("C21", "bug", "ticdatfactory", ("        if fk_failures and propagate:\n", "        if needs_removal and propagate:\n"), "keyed never cascades"),
 ("C21", "bug", "ticdatfactory", ("                if field not in self.primary_key_fields[table]:\n                    real", "                if True:\n                    real"), "pk"),
 ("C21", "bug", "ticdatfactory", ("        for (table, field), value in real_replacements.items():\n            if (table, field) in replacements_needed:\n                verify(self._data_types", "        for (table, field), value in replacement_values.items():\n            if (table, field) in replacements_needed:\n                verify(self._data_types"), "defaults unchecked"),
 ("C21", "bug", "ticdatfactory", ("        for (table, field), value in real_replacements.items():\n            if (table, field) in replacements_needed:\n                verify(self._data_types[table][field].valid_data(value),\n                       \"The replacement value %s is not itself valid for %s : %s\"%(value, table, field))\n\n        for (table, field), (vals, pks) in replacements_needed.items() :\n            if (table, field) in real_replacements:\n", "        for (table, field), (vals, pks) in replacements_needed.items() :\n            if (table, field) in real_replacements:\n                verify(self._data_types[table][field].valid_data(real_replacements[table, field]), \"bad\")\n"), "checked as we go"),
 ("C21", "bug", "ticdatfactory", ("                        self._default_values.get(table, {}).get(field, 0))\n        for (table, field), value", "                        self._default_values.get(field, {}).get(field, 0))\n        for (table, field), value"), "wrong default"),
 ("C21", "bug", "pandatfactory", ("            remove_rows = self._find_foreign_key_failure_rows(pan_dat)\n\n        return pan_dat", "            remove_rows.pop(fk)\n\n        return pan_dat"), "stale"),
 ("C21", "bug", "pandatfactory", ("        while remove_rows:\n", "        if remove_rows:\n"), "one"),
 ("C21", "bug", "pandatfactory", ("getattr(pan_dat, native)[[not _ for _ in rows]].copy(deep=True)", "getattr(pan_dat, native)[list(rows)].copy(deep=True)"), ""),
 ("C21", "bug", "pandatfactory", ("setattr(pan_dat, native, getattr(pan_dat, native)", "setattr(pan_dat, foreign, getattr(pan_dat, native)"), ""),
 ("C21", "bug", "pandatfactory", ("                        real_replacements[table, field] if bad_row(row) else row[field])", "                        real_replacements[table, field])"), "all"),
 ("C21", "bug", "pandatfactory", ("            if (table, field) in real_replacements:\n                data_type", "            if (table, field) in replacement_values:\n                data_type"), "defaults unused"),
 ("C21", "bug", "pandatfactory", ("                    real_replacements[table, field] = replacement_values[table, field] \\\n", "                    real_replacements[table, field] = replacement_values[field, table] \\\n"), ""),
 ("C21", "ok", "ticdatfactory", ("        for t,row_index in sorted(needs_removal, reverse=True):\n", "        for t,row_index in reversed(sorted(needs_removal)):\n"), ""),
 ("C21", "ok", "ticdatfactory", ("                    if failed_pk in getattr(tic_dat, fk.native_table) :\n                        del(getattr(tic_dat, fk.native_table)[failed_pk])\n", "                    getattr(tic_dat, fk.native_table).pop(failed_pk, None)\n"), ""),
 ("C21", "ok", "ticdatfactory", ("        if fk_failures and propagate:\n            return self.remove_foreign_key_failures(tic_dat)\n        return tic_dat", "        if not (fk_failures and propagate):\n            return tic_dat\n        return self.remove_foreign_key_failures(tic_dat, propagate)"), ""),
 ("C21", "ok", "pandatfactory", ("        while remove_rows:\n", "        while True:\n            if not remove_rows:\n                break\n"), ""),
 ("C21", "ok", "pandatfactory", ("            setattr(pan_dat, native, getattr(pan_dat, native)[[not _ for _ in rows]].copy(deep=True))\n", "            keep = [not _ for _ in rows]\n            kept = getattr(pan_dat, native)[keep]\n            setattr(pan_dat, native, kept.copy(deep=True))\n"), ""),
 ("C21", "ok", "pandatfactory", ("                getattr(pan_dat, table)[field] = utils.faster_df_apply(getattr(pan_dat, table), lambda row:\n                        real_replacements[table, field] if bad_row(row) else row[field])", "                df = getattr(pan_dat, table)\n                def new_cell(row):\n                    if bad_row(row):\n                        return real_replacements[table, field]\n                    return row[field]\n                df[field] = utils.faster_df_apply(df, new_cell)"), ""),
 ("C21", "ok", "ticdatfactory", ("                for pk in pks:\n                    getattr(tic_dat, table)[pk][field] = real_replacements[table, field]\n", "                rows, value = getattr(tic_dat, table), real_replacements[table, field]\n                for pk in pks:\n                    rows[pk][field] = value\n"), ""),

 ('C17', 'bug', 'ticdatfactory', ('                        if foreign_look_up not in foreign_look_into:', '                        if foreign_look_up is not None and foreign_look_up not in foreign_look_into:'), 'null fk'),
 ('C17', 'bug', 'pandatfactory', ('                joined = None # see ticdat issue 173', '                continue'), 'skip'),
 ('C17', 'bug', 'pandatfactory', ('set(child[magic_field*2]) if joined is None', 'set() if joined is None'), 'none'),
 ('C17', 'bug', 'pandatfactory', ('set(joined[joined[magic_field] != True][magic_field*2])', 'set(joined[joined[magic_field] == False][magic_field*2])'), 'NaN'),
 ('C17', 'bug', 'pandatfactory', ('            child = getattr(pan_dat, native).copy(deep=True)', '            child = getattr(pan_dat, native).dropna()'), 'null'),
 ('C17', 'bug', 'ticdatfactory', ('            for native, fks in self._foreign_keys_by_native().items():\n                def getcell_', '            for native, fks in self._foreign_keys_by_native().items():\n                if not self.primary_key_fields.get(native): continue\n                def getcell_'), 'keyless'),
 ('C17', 'bug', 'ticdatfactory', ('                            rtn_pks[fk].add(native_pk)\n', '                            rtn_pks[fk].add(native_pk if dictish(getattr(tic_dat, native)) else foreign_look_up)\n'), 'not position'),
 ('C17', 'bug', 'ticdatfactory', ('             if [field_name] == list(self.primary_key_fields.get(tblname, ())):\n                 return native_pk', '             if field_name in self.primary_key_fields.get(tblname, ()) and len(native_data_row)==0:\n                 return native_pk'), ''),
 ('C17', 'bug', 'ticdatfactory', ('             return native_pk[self.primary_key_fields[tblname].index(field_name)]', '             return native_pk[0]'), 'pk part'),
 ('C17', 'bug', 'ticdatfactory', ('                if pk not in self._data_types.get(t, ()):', '                if pk not in self._data_types.get(t, ()) and len(pks)==1:'), ''),
 ('C17', 'bug', 'pandatfactory', ('                    return not data_type.valid_data(None if isnull(data) else data)', '                    return not isnull(data) and not data_type.valid_data(data)'), ''),
 ('C17', 'bug', 'utils', ('            k = tuple(row[f] for f in flds)\n            k = k[0] if len(k)==1 else k\n            rtn[t][k] += 1\n        rtn[t] = {k:v for k,v in rtn[t].items() if v > 1}\n        if not rtn[t]:\n            del(rtn[t])\n    return rtn', '            k = tuple(row[f] for f in flds)\n            k = k[0] if len(k)==1 else k\n            rtn[t][k] += 1\n        rtn[t] = {k:v for k,v in rtn[t].items() if v > 1 and k}\n        if not rtn[t]:\n            del(rtn[t])\n    return rtn'), '0'),
 ('C16', 'bug', 'ticdatfactory', ('                    if not isinstance(predicate_kwargs, dict):\n                        rtn[tbl, pn] = PKEM', '                    if not dictish(predicate_kwargs):\n                        rtn[tbl, pn] = PKEM'), 'not the same?'),
 ('C16', 'bug', 'pandatfactory', ('                            except:\n                                return False\n                        bad_row', '                            except ValueError:\n                                return False\n                        bad_row'), ''),
 ('C16', 'bug', 'pandatfactory', ("                    rtn[TPN(tbl, pn)] = PKEM('*', predicate_kwargs", "                    if len(_table): rtn[TPN(tbl, pn)] = PKEM('*', predicate_kwargs"), 'empty table'),
 ('C17', 'bug', 'pandatfactory', ('                        where_bad_rows = utils.faster_df_apply(_table, bad_row, trip_wire_check=check_too_many_bool)', '                        where_bad_rows = utils.faster_df_apply(_table.drop_duplicates(), bad_row, trip_wire_check=check_too_many_bool)'), ''),
 ('C17', 'bug', 'ticdatfactory', ('            data_row_predicates["parameters"] = data_row_predicates.get("parameters", {})\n            data_row', '            data_row_predicates["parameters"] = {}\n            data_row'), 'others lost'),

 ('C23', 'bug', 'ticdatfactory', ('            return table_data[tblname, fields]', '            return table_data[tblname]'), 'looked up elsewhere'),
 ('C23', 'bug', 'ticdatfactory', [('            if (tblname, fields) not in table_data:\n                add_here = table_data[tblname, fields]', '            if tblname not in table_data:\n                add_here = table_data[tblname]'), ('            return table_data[tblname, fields]', '            return table_data[tblname]')], 'key narrowed'),
 ('C23', 'bug', 'csvtd', [('        if (table, field) not in self._dv_dt:\n            self._dv_dt[table, field] = (', '        if field not in self._dv_dt:\n            self._dv_dt[field] = ('), ('        return self._dv_dt[table, field]', '        return self._dv_dt[field]')], ''),
 ('C23', 'bug', 'xls', [('        if (table, field) not in self._dv_dt:\n            self._dv_dt[table, field] = (', '        if field not in self._dv_dt:\n            self._dv_dt[field] = ('), ('        return self._dv_dt[table, field]', '        return self._dv_dt[field]')], ''),
 ('C23', 'bug', 'ticdatfactory', ('        self._none_as_infinity_bias_cache.clear()\n', ''), 'set_data_type keeps'),
 ('C23', 'bug', 'pandatfactory', [('        self._none_as_infinity_bias_cache.clear()', '        self._kept = 1'), ('        self._none_as_infinity_bias_cache.clear()\n', '')], 'set_data_type keeps'),
 ('C23', 'bug', 'csvtd', ('    def _get_file_path(self, dir_path, table):', "    @__import__('functools').lru_cache(None)\n    def _get_file_path(self, dir_path, table):"), 'reads the directory: not seen by the analysis'),
 ('C23', 'bug', 'ticdatfactory', ('    def _none_as_infinity_bias(self, t, f):', '    @functools.lru_cache(maxsize=None)\n    def _none_as_infinity_bias(self, t, f):'), ''),
 ('C16', 'bug', 'ticdatfactory', ('                        maker_key = (rpi.predicate_kwargs_maker, bool(uses_convert))', '                        maker_key = pn'), 'memo by name'),
 ('C17', 'bug', 'ticdatfactory', [('            if (tblname, fields) not in table_data:\n                add_here = table_data[tblname, fields]', '            if tblname not in table_data:\n                add_here = table_data[tblname]'), ('            return table_data[tblname, fields]', '            return table_data[tblname]')], 'memo'),
 ('C23', 'ok', 'csvtd', [('        if (table, field) not in self._dv_dt:\n            self._dv_dt[table, field] = (', '        key = (table, field)\n        if key in self._dv_dt:\n            return self._dv_dt[key]\n        if True:\n            self._dv_dt[key] = (')], ''),
 ('C23', 'ok', 'pandatfactory', [('        if (t,f) not in self._none_as_infinity_bias_cache:', '        try:\n            return self._none_as_infinity_bias_cache[t, f]\n        except KeyError:')], ''),
 ('C23', 'ok', 'ticdatfactory', ('                        maker_key = (rpi.predicate_kwargs_maker, bool(uses_convert))', '                        wants = bool(uses_convert)\n                        maker_key = (rpi.predicate_kwargs_maker, wants)'), ''),
 ('C23', 'ok', 'ticdatfactory', [('        self._none_as_infinity_bias_cache.clear()\n', '        self._forget_bias()\n'), ('    def _none_as_infinity_bias(self, t, f):', '    def _forget_bias(self):\n        self._none_as_infinity_bias_cache.clear()\n    def _none_as_infinity_bias(self, t, f):')], ''),
 ('C23', 'ok', 'utils', ('        if wildcards not in self._archived_slicings:\n            for indx', '        found = self._archived_slicings\n        if wildcards not in self._archived_slicings:\n            for indx'), ''),
 ('C23', 'ok', 'ticdatfactory', ('        table_data = defaultdict(set)\n        def get_table_data(tblname, fields):\n            if fields == self.primary_key_fields.get(tblname, ()):\n                return getattr(tic_dat, tblname)\n            if (tblname, fields) not in table_data:\n                add_here = table_data[tblname, fields]', '        table_data = {}\n        def get_table_data(tblname, fields):\n            if fields == self.primary_key_fields.get(tblname, ()):\n                return getattr(tic_dat, tblname)\n            if (tblname, fields) not in table_data:\n                add_here = table_data.setdefault((tblname, fields), set())'), ''),
 ('C23', 'bug', 'pandatfactory', ('                    maker_key = (rpi.predicate_kwargs_maker, bool(uses_convert))', '                    maker_key = rpi.predicate_kwargs_maker'), ''),
 ('C23', 'bug', 'ticdatfactory', ('                        maker_key = (rpi.predicate_kwargs_maker, bool(uses_convert))', '                        maker_key = pn'), ''),
 ('C23', 'bug', 'ticdatfactory', ('                        maker_key = (rpi.predicate_kwargs_maker, bool(uses_convert))', '                        maker_key = (rpi.predicate_kwargs_maker.__name__, bool(uses_convert))'), ''),
 ('C23', 'bug', 'utils', ('        if wildcards not in self._archived_slicings:\n            for indx in self._indicies:\n                self._archived_slicings[wildcards][fa(indx)].append(indx)\n        return list(self._archived_slicings[wildcards][fa(args)])', '        if len(wildcards) not in self._archived_slicings:\n            for indx in self._indicies:\n                self._archived_slicings[len(wildcards)][fa(indx)].append(indx)\n        return list(self._archived_slicings[len(wildcards)][fa(args)])'), ''),
 ('C23', 'bug', 'utils', ('        return list(self._archived_slicings[wildcards][fa(args)])', '        return self._archived_slicings[wildcards][fa(args)]'), ''),
 ('C23', 'bug', 'utils', [('        if func_ not in memo_dat_version_of_func:\n            memo_dat_version_of_func[func_] =', '        if func_.__name__ not in memo_dat_version_of_func:\n            memo_dat_version_of_func[func_.__name__] ='), ('        return memo_dat_version_of_func[func_]', '        return memo_dat_version_of_func[func_.__name__]')], ''),
 ('C23', 'bug', 'csvtd', ('        self._dv_dt.clear()\n        rtn = {t:defaultdict(int)', '        rtn = {t:defaultdict(int)'), 'fixed defect'),
 ('C23', 'bug', 'csvtd', ('        self._dv_dt.clear() # the defaults and data types might have been changed since the last read\n', ''), 'fixed defect'),
 ('C23', 'bug', 'xls', ('        self._dv_dt.clear()\n        pk_tables', '        pk_tables'), 'fixed defect'),
 ('C23', 'bug', 'utils', ('    memo_dat_version_of_func = {}\n    def dat_version_of_func(func_):', '    memo_dat_version_of_func = {}\n    def dat_version_of_func(func_, memo_dat_version_of_func={}):'), 'default argument'),

 ('C01', 'bug', 'ticdatfactory', ('verify(not self._has_been_used,\n               "The foreign keys can\'t be changed after a TicDatFactory has been used.")\n        verify(native_table is None', 'verify(native_table is None or not self._has_been_used,\n               "The foreign keys can\'t be changed after a TicDatFactory has been used.")\n        verify(native_table is None'), 'clear all passes? only named guarded'),
 ('C01', 'bug', 'pandatfactory', ('    def _trigger_has_been_used(self):\n        self._has_been_used = True', '    def _trigger_has_been_used(self):\n        self._has_been_used = bool(self.all_tables - self.generic_tables)'), 'value not always true'),
 ('C01', 'bug', 'ticdatfactory', ('        if self._has_been_used :\n            return # idempotent\n', '        if self._has_been_used or not self._foreign_keys:\n            return # idempotent\n'), ''),
 ('C01', 'bug', 'ticdatfactory', ('        self._has_been_used[:] = [True]', '        self._has_been_used.extend(self._linkName)'), ''),
 ('C01', 'bug', 'pandatfactory', ('                superself._trigger_has_been_used()\n                init_tables = {k: v', '                if any(utils.safe_apply(len)(_) for _ in init_tables.values()):\n                    superself._trigger_has_been_used()\n                init_tables = {k: v'), ''),
 ('C01', 'bug', 'ticdatfactory', ('                superself._trigger_has_been_used()\n                self._all_data_dicts = []', '                self._all_data_dicts = []'), ''),
 ('C01', 'bug', 'pandatfactory', ('        verify(not self._has_been_used,\n               "The parameters can\'t be changed after a PanDatFactory has been used.")\n', '        verify(name in self._parameters or not self._has_been_used,\n               "The parameters can\'t be changed after a PanDatFactory has been used.")\n'), 'reset allowed'),
 ('C01', 'bug', 'pandatfactory', ('        verify(not self._has_been_used,\n               "The default values can\'t be changed after a PanDatFactory has been used.")\n        for k,v in', '        verify(not (table_defaults and self._has_been_used),\n               "The default values can\'t be changed after a PanDatFactory has been used.")\n        for k,v in'), 'OKAY equivalent-ish'),
 ('C01', 'bug', 'ticdatfactory', ('        for k,v in tableDefaults.items():\n            self._default_values[k] = dict(self._default_values[k], **v)', '        for k,v in tableDefaults.items():\n            self._default_values[k] = dict(self._default_values[k], **v)\n        self._has_been_used[:] = []'), 'unlock'),
 ('C01', 'bug', 'ticdatfactory', ('    def set_infinity_io_flag(self, value):', '    def reset_defaults(self):\n        self._default_values.clear()\n    def set_infinity_io_flag(self, value):'), 'new unguarded method'),
 ('C02', 'bug', 'ticdatfactory', ('        for k,v in tableDefaults.items():\n            self._default_values[k] = dict(self._default_values[k], **v)', '            self._default_values[k] = dict(self._default_values[k], **v)'), 'validate+apply in one loop'),
 ('C02', 'bug', 'pandatfactory', ('        for k,v in table_defaults.items():\n            for f, dv in v.items():\n                self._default_values[k][f] = dv', '            for f, dv in v.items():\n                self._default_values[k][f] = dv'), ''),
 ('C02', 'bug', 'ticdatfactory', [('        verify(not any(self.primary_key_fields.get(t) for t in g),\n               "Can not make generators from tables with primary keys")\n        self._generator_tables[:] = [_ for _ in g]', '        self._generator_tables[:] = []\n        for t in g:\n            verify(not self.primary_key_fields.get(t), "Can not make generators from tables with primary keys")\n            self._generator_tables.append(t)')], ''),
 ('C02', 'bug', 'ticdatfactory', ('        for k,v in _mappings.items() :\n            verify(k in self._allFields(native_table),', '        self._foreign_keys[native_table, foreign_table].add(tuple(_mappings.items()))\n        for k,v in _mappings.items() :\n            verify(k in self._allFields(native_table),'), ''),
 ('C02', 'bug', 'pandatfactory', ('        self._data_types[table][field] = TypeDictionary.safe_creator(number_allowed', '        self._data_types[table].pop(field, None)\n        self._data_types[table][field] = TypeDictionary.safe_creator(number_allowed'), 'popped before creator raises'),
 ('C02', 'bug', 'ticdatfactory', ('        td = None\n        if enforce_type_rules:', '        td = None\n        self._parameters.pop(name, None)\n        if enforce_type_rules:'), ''),
 ('C02', 'bug', 'pandatfactory', ('        self._none_as_infinity_bias_cache.clear()\n\n    def clear_data_type', '        self._none_as_infinity_bias_cache.clear()\n        verify(not self._data_types[table][field].nullable or field in self.data_fields[table], "no null keys")\n\n    def clear_data_type'), 'verify after write'),
 ('C02', 'bug', 'ticdatfactory', ('        verify(callable(predicate), "predicate should be a one argument function")\n        verify(not predicate_kwargs_maker', '        verify(callable(predicate), "predicate should be a one argument function")\n        self._data_row_predicates[table].pop(predicate_name, None)\n        verify(not predicate_kwargs_maker'), ''),
 ('C02', 'bug', 'pandatfactory', ('        if utils.does_new_fk_complete_circle(native_table, foreign_table, self):\n            print(f"*** A circular', '        self._foreign_keys[native_table, foreign_table].add(tuple(_mappings.items()))\n        if utils.does_new_fk_complete_circle(native_table, foreign_table, self):\n            verify(False, f"*** A circular'), 'raise after add'),

 ('C03', 'bug', 'ticdatfactory', ('        return {k: v for k, v in self._data_row_predicates.get(table, {}).items()}', '        return self._data_row_predicates.get(table, {})'), ''),
 ('C03', 'bug', 'ticdatfactory', ('        tables_fields = {t: [list(self.primary_key_fields.get(t, [])),\n                             list(self.data_fields.get(t, []))]\n                          for t in set(self.primary_key_fields).union(self.data_fields)}', '        if not hasattr(self, "_tables_fields"):\n            self._tables_fields = {t: [list(self.primary_key_fields.get(t, [])),\n                             list(self.data_fields.get(t, []))]\n                          for t in set(self.primary_key_fields).union(self.data_fields)}\n        tables_fields = self._tables_fields'), 'cached and handed out'),
 ('C03', 'bug', 'pandatfactory', ('    @property\n    def default_values(self):\n        return deep_freeze(self._default_values)', '    @property\n    def default_values(self):\n        return utils.FrozenDict({t: v for t, v in self._default_values.items()})'), ''),
 ('C03', 'bug', 'ticdatfactory', ('    def generator_tables(self):\n        return deep_freeze(self._generator_tables)', '    def generator_tables(self):\n        return self._generator_tables'), ''),
 ('C03', 'bug', 'ticdatfactory', ('self._generator_tables[:] = [_ for _ in g]', 'self._generator_tables = g'), "keeps caller's"),
 ('C03', 'bug', 'ticdatfactory', ("        self._primary_key_fields = FrozenDict({k : tuple(v[0])for k,v in init_fields.items()\n                                               if v != '*'})", "        self._primary_key_fields = FrozenDict({k : v[0] for k,v in init_fields.items()\n                                               if v != '*'})"), "keeps caller's list"),
 ('C03', 'bug', 'utils', ('            strings_allowed = tuple(strings_allowed)  # defensive copy', '            strings_allowed = strings_allowed'), ''),
 ('C03', 'bug', 'utils', ('        self._dataFrozen = True # need to do first, obviously\n        self._attributesFrozen  = True\n\ndef deep_freeze', '        self._attributesFrozen  = True\n\ndef deep_freeze'), ''),
 ('C03', 'bug', 'utils', ('    if hasattr(x, "__getitem__") :\n        return tuple(map(deep_freeze, x))\n    return frozenset(map(deep_freeze,x))', '    if hasattr(x, "__getitem__") :\n        return tuple(map(deep_freeze, x))\n    return x'), 'sets pass through'),
 ('C03', 'bug', 'ticdatfactory', ('            self._default_values[k] = dict(self._default_values[k], **v)\n    def set_gen', '            self._default_values[k] = dict(self._default_values[k], **v) if len(v) < len(self._default_values[k]) else v\n    def set_gen'), 'full dict kept'),
 ('C03', 'bug', 'pandatfactory', ('    def data_types(self):\n        return utils.FrozenDict({t : utils.FrozenDict({k :v for k,v in vd.items()})\n                                for t,vd in self._data_types.items()})', '    def data_types(self):\n        return utils.FrozenDict({t : vd for t,vd in self._data_types.items()})'), ''),
 ('C03', 'bug', 'ticdatfactory', ('    def tooltips(self):\n        return utils.FrozenDict(self._tooltips)', '    def tooltips(self):\n        return self._tooltips if self._has_been_used else utils.FrozenDict(self._tooltips)'), ''),
 ('C03', 'ok', 'ticdatfactory', ('    def tooltips(self):\n        return utils.FrozenDict(self._tooltips)', '    def tooltips(self):\n        return dict(self._tooltips)'), 'a copy'),
 ('C04', 'bug', 'ticdatfactory', ('                            if not getattr(v, "_dataFrozen", False) :\n                                v._dataFrozen =True\n                                v._attributesFrozen = True', '                            if not getattr(v, "_attributesFrozen", False) :\n                                v._attributesFrozen = True'), ''),
 ('C04', 'bug', 'ticdatfactory', ('                        elif utils.containerish(_t) :\n                            setattr(self, t, tuple(_t))\n                    else :', '                    else :'), ''),
 ('C04', 'bug', 'ticdatfactory', ('                for _t in getattr(self, "_all_data_dicts", ()) :\n                    if utils.dictish(_t) and not getattr(_t, "_attributesFrozen", False) :\n                        _t._dataFrozen  = True\n                        _t._attributesFrozen = True\n', ''), 'links not frozen'),
 ('C04', 'bug', 'ticdatfactory', ('                self._isFrozen = True\n            def __repr__', '                self._isFrozen = bool(self._all_data_dicts)\n            def __repr__'), ''),
 ('C04', 'bug', 'utils', ('        def __delattr__(self, item):\n            if not getattr(self, freezeAttr, False):\n                return', '        def __delattr__(self, item):\n            if item.startswith("_") or not getattr(self, freezeAttr, False):\n                return'), 'delete the frozen mark'),
 ('C04', 'bug', 'utils', ('            if key in alwaysEditable or not getattr(self, freezeAttr, False):', '            if key in alwaysEditable or not hasattr(self, key) or not getattr(self, freezeAttr, False):'), ''),
 ('C04', 'bug', 'utils', ('            if getattr(self, "_dataFrozen", False) :\n                raise TicDatError("Can\'t edit a frozen TicDatDataRow")\n            self._data', '            if getattr(self, "_dataFrozen", False) and self[key] != value:\n                raise TicDatError("Can\'t edit a frozen TicDatDataRow")\n            self._data'), '1 vs True vs 1.0 / same value'),
 ('C04', 'bug', 'utils', ('        def values(self):\n            return tuple(self._data)', '        def values(self):\n            return self._data'), 'live list'),
 ('C04', 'bug', 'ticdatfactory', ('                    def __getitem__(self, item):\n                        if (item not in self) and (not getattr(self, "_dataFrozen", False)):\n                            self[item] = rowfactory({})', '                    def __getitem__(self, item):\n                        if item not in self:\n                            dict.__setitem__(self, item, rowfactory({}))'), 'read adds row to a frozen table'),
 ('C04', 'bug', 'ticdatfactory', ('                if getattr(self, "_isFrozen", False) :\n                    return\n                for t in set(superself', '                if getattr(self, "_isFrozen", False) or not self._all_data_dicts:\n                    return\n                for t in set(superself'), 'only keyless tables'),
 ('C04', 'bug', 'utils', ('        raise TicDatError("Can\'t edit a frozen " + self.__class__.__name__)\n    def setdefault', '        return None\n    def setdefault'), 'silently ignored: must raise'),
 ('C04', 'bug', 'utils', ('    def __ior__(self, other) :\n        if not getattr(self, "_dataFrozen", False) :\n            return super(FreezeableDict, self).__ior__(other)\n        raise TicDatError("Can\'t edit a frozen " + self.__class__.__name__)\n', ''), ''),
 ('C04', 'bug', 'ticdatfactory', ('                        alldatadicts.append(self)', '                        if self:\n                            alldatadicts.append(self)'), 'empty link dicts are never frozen'),

 ('C05', 'bug', 'pandatfactory', ('child = getattr(pan_dat, native).copy(deep=True)', 'child = getattr(pan_dat, native)'), 'child edited'),
 ('C05', 'bug', 'pandatfactory', ('parent = parent.drop_duplicates(mappings.foreign_field, inplace=False).copy(deep=True)', 'parent.drop_duplicates(mappings.foreign_field, inplace=True)'), 'parent deduped'),
 ('C05', 'bug', 'pandatfactory', ("        rtn = self.copy_pan_dat(rtn) # deep copy so data changes don't side effect\n", "        rtn = rtn # deep copy so data changes don't side effect\n"), 'write adj on views'),
 ('C05', 'bug', 'ticdatfactory', ('        table_prepends = dict(table_prepends)\n', '        table_prepends = table_prepends or {}\n'), "obfusimplify writes to caller's prepends"),
 ('C05', 'bug', 'ticdatfactory', ('                return {k: reverse_renamings[foreign_keys[t, k], v] if (t,k) in foreign_keys else v\n                           for k,v in all_row.items()}', '                for k, v in all_row.items():\n                    if (t,k) in foreign_keys:\n                        all_row[k] = reverse_renamings[foreign_keys[t, k], v]\n                return all_row'), 'obfuscates rows in place'),
 ('C05', 'bug', 'ticdatfactory', ('        return dict(defaults, **{k: v[self.data_fields["parameters"][0]] for k,v in dat.parameters.items()})', '        for k, d in defaults.items():\n            if k not in dat.parameters:\n                dat.parameters[k] = d\n        return {k: v[self.data_fields["parameters"][0]] for k,v in dat.parameters.items()}'), 'params filled'),
 ('C05', 'bug', 'pandatfactory', ('                where_bad_rows = _table[field].apply(bad_row)', '                if data_type.datetime:\n                    _table[field] = _table[field].apply(utils.dateutil_adjuster)\n                where_bad_rows = _table[field].apply(bad_row)'), "dates converted in the caller's frame"),
 ('C05', 'bug', 'pandatfactory', ('                dups = getattr(pan_dat, t).duplicated(', '                getattr(pan_dat, t).reset_index(drop=True, inplace=True)\n                dups = getattr(pan_dat, t).duplicated('), 'index reset'),
 ('C05', 'bug', 'ticdatfactory', ('                if not len(list(_iter(t1))) == len(list(_iter(t2))) :\n                    return False\n                for r1 in _iter(t1):\n                    if not any (samerow(r1, r2) for r2 in _iter(t2)) :\n                        return False', '                if not len(list(_iter(t1))) == len(list(_iter(t2))) :\n                    return False\n                remaining = _iter(t2)\n                for r1 in _iter(t1):\n                    match = [i for i, r2 in enumerate(remaining) if samerow(r1, r2)]\n                    if not match:\n                        return False\n                    remaining.pop(match[0])'), 'comparing eats rows'),
 ('C05', 'bug', 'ticdatfactory', ('                        v = v.copy(deep=True)\n                        for f, d in superself.default_values.get(t, {}).items():', '                        for f, d in superself.default_values.get(t, {}).items():'), "default columns added to caller's frame"),
 ('C05', 'bug', 'ticdatfactory', ('                              v = v.reset_index(drop=False)', '                              v.reset_index(drop=False, inplace=True)'), 'index reset'),
 ('C05', 'bug', 'ticdatfactory', ('        table_to_set_name = table_to_set_name or {}\n        verify(dictish(table_to_set_name) and all(hasattr(tic_dat, k) and\n                   utils.stringish(v) for k,v in table_to_set_name.items()),\n               "bad table_to_set_name argument")\n        for t in set(self.all_tables).intersection(dir(tic_dat)):\n            try:\n                ampl.setData(getattr(tic_dat, t), *([table_to_set_name[t]]\n                                                if t in table_to_set_name else []))', '        table_to_set_name = table_to_set_name or {}\n        verify(dictish(table_to_set_name) and all(hasattr(tic_dat, k) and\n                   utils.stringish(v) for k,v in table_to_set_name.items()),\n               "bad table_to_set_name argument")\n        for t in set(self.all_tables).intersection(dir(tic_dat)):\n            try:\n                set_name = table_to_set_name.pop(t, None)\n                ampl.setData(getattr(tic_dat, t), *([set_name] if set_name else []))'), 'set names consumed'),
 ('C05', 'bug', 'csvtd', ('        verify(not os.path.isfile(dir_path), "A file is not a valid directory path")\n', '        verify(not os.path.isfile(dir_path), "A file is not a valid directory path")\n        for t in self.tic_dat_factory.all_tables:\n            if utils.containerish(getattr(tic_dat, t)) and hasattr(getattr(tic_dat, t), "sort"):\n                getattr(tic_dat, t).sort(key=str)\n'), 'sorted in place'),
 ('C05', 'bug', 'pandatfactory', ('        replacement_values = replacement_values or {}\n        verify(dictish(replacement_values) and all(len(k)==2 for k in replacement_values),\n               "replacement_values should be a dictionary mapping (table, field) to valid replacement value")\n        for (table,field), v in replacement_values.items():\n            verify(table in self.all_tables, "%s is not a table for this schema"%table)\n            verify(field in self._all_fields(table), "%s is not a field for %s"%(field, table))\n\n        replacements_needed = self.find_data_type_failures(pan_dat, as_table=False)\n        if not replacements_needed:\n            return pan_dat\n\n        real_replacements = {}', '        replacement_values = {} if replacement_values is None else replacement_values\n        verify(dictish(replacement_values) and all(len(k)==2 for k in replacement_values),\n               "replacement_values should be a dictionary mapping (table, field) to valid replacement value")\n        for (table,field), v in replacement_values.items():\n            verify(table in self.all_tables, "%s is not a table for this schema"%table)\n            verify(field in self._all_fields(table), "%s is not a field for %s"%(field, table))\n\n        replacements_needed = self.find_data_type_failures(pan_dat, as_table=False)\n        if not replacements_needed:\n            return pan_dat\n\n        real_replacements = replacement_values'), "caller's replacement values"),
 ('C05', 'bug', 'ticdatfactory', ('                if field not in self.primary_key_fields[table]:\n                    real_replacements[table, field] = replacement_values.get((table, field),', '                if field not in self.primary_key_fields[table]:\n                    real_replacements[table, field] = replacement_values.setdefault((table, field),'), "caller's replacement values tdf (FrozenDict default would raise..)"),
 ('C05', 'bug', 'pandatfactory', ('            for f in {f for _t,f in field_renamings if _t == t}.union(self.data_fields[t]):', '            for f in self.data_fields[t]:\n                field_renamings.setdefault((t, f), f)\n            for f in {f for _t,f in field_renamings if _t == t}.union(self.data_fields[t]):'), 'renamings'),
 ('C05', 'bug', 'pandatfactory', ('                                rtn[TPN(tbl, pn)] = _df = _table[where_bad_rows].copy()\n', '                                rtn[TPN(tbl, pn)] = _df = _table if where_bad_rows.all() else _table[where_bad_rows].copy()\n'), 'error message added to the data when every row fails'),
 ('C05', 'bug', 'pgtd', ('pandatio', '        pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        jdict = {}\n        def fix_cell(x):', '        for t in self.pan_dat_factory.all_tables:\n            setattr(pan_dat, t, getattr(pan_dat, t).reset_index(drop=True))\n        pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        jdict = {}\n        def fix_cell(x):'), "replaces the caller's tables"),
 ('C05', 'bug', 'ticdatfactory', ('                    rtn_dict[t].append(fix_all_row(data_row))', '                    data_row.update(fix_all_row(data_row))\n                    rtn_dict[t].append(data_row)'), 'keyless rows in place'),
 ('C05', 'bug', 'ticdatfactory', ('        def getcell(tblname, native_pk, native_data_row, field_name):\n', '        def getcell(tblname, native_pk, native_data_row, field_name):\n             if field_name not in native_data_row and field_name in self.default_values.get(tblname, {}):\n                 native_data_row[field_name] = self.default_values[tblname][field_name]\n'), 'rows filled while diagnosing'),
 ('C05', 'bug', 'pandatfactory', ('        rtn = self._copy_to_tic_dat(pan_dat)\n        from ticdat', '        for t in self.all_tables:\n            df = getattr(pan_dat, t)\n            for f in df.columns:\n                df[f] = df[f].astype(object).where(df[f].notnull(), None)\n        rtn = self._copy_to_tic_dat(pan_dat)\n        from ticdat'), 'nulls'),

 ('C07', 'bug', 'csvtd', ('            for t in tdf.all_tables :\n                f = file_path(t)\n                verify(not os.path.exists(f),', '            for t in tdf.all_tables :\n                f = os.path.join(dir_path, t + ".csv")\n                verify(not os.path.exists(f),'), 'case space names not checked'),
 ('C07', 'bug', 'csvtd', ('            return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header,\n                                           case_space_table_names)', '            return tdf.csv.write_directory(dat, dir_path, True, dialect, write_header,\n                                           case_space_table_names)'), 'generic'),
 ('C07', 'bug', 'csvtd', ('            for t in tdf.all_tables :\n                f = file_path(t)', '            for t in tdf.primary_key_fields :\n                f = file_path(t)'), 'keyless not checked'),
 ('C07', 'bug', 'csvtd', ('            for t in tdf.all_tables :\n                f = file_path(t)', '            for t in (_ for _ in tdf.all_tables if _ not in tdf.generator_tables) :\n                f = file_path(t)'), 'generators not checked'),
 ('C07', 'bug', 'csvtd', ('        if not allow_overwrite:\n            for t in', '        if not allow_overwrite and not case_space_table_names:\n            for t in'), ''),
 ('C07', 'bug', 'csvtd', ('                verify(not os.path.exists(f), "The', '                verify(not os.path.getsize(f) if os.path.exists(f) else True, "The'), 'empty file is overwritten'),
 ('C07', 'bug', 'jsontd', ('        verify(not (json_file_path and os.path.exists(json_file_path) and not allow_overwrite),', '        verify(to_pandas or not (json_file_path and os.path.exists(json_file_path) and not allow_overwrite),'), ''),
 ('C07', 'bug', 'xls', ('        verify(allow_overwrite or not os.path.exists(file_path),', '        verify(allow_overwrite or not os.path.exists(file_path.lower()),'), ''),
 ('C07', 'bug', 'sqlitetd', ('                verify(allow_overwrite or not any(True for _ in  con.execute("Select * from [%s]"%t)),', '                verify(allow_overwrite or not any(True for _ in  con.execute("Select * from [%s] where rowid > 1"%t)),'), ''),
 ('C07', 'bug', 'sqlitetd', ('             return tdf.sql.write_db_data(dat, db_file_path, allow_overwrite)', '             return tdf.sql.write_db_data(dat, db_file_path, allow_overwrite or not self.tic_dat_factory.primary_key_fields)'), ''),
 ('C07', 'bug', 'sqlitetd', ('                verify(allow_overwrite or not any(True for _ in  con.execute("Select * from [%s]"%t)),\n                        "allow_overwrite is False, but there are already data records in %s"%t)\n', '                verify(allow_overwrite or t in self.tic_dat_factory.generator_tables or not any(True for _ in  con.execute("Select * from [%s]"%t)),\n                        "allow_overwrite is False, but there are already data records in %s"%t)\n'), ''),
 ('C07', 'bug', 'sqlitetd', ('        verify(allow_overwrite or not os.path.exists(sql_file_path),\n               "The %s path exists and overwrite is not allowed"%sql_file_path)\n', '        verify(allow_overwrite or include_schema or not os.path.exists(sql_file_path),\n               "The %s path exists and overwrite is not allowed"%sql_file_path)\n'), ''),
 ('C07', 'bug', 'mdb', ('                        verify(not any(True for _ in cur.fetchall()),', '                        verify(not any(_[0] for _ in cur.fetchall()),'), "rows with a zero first cell don't count"),
 ('C07', 'bug', 'mdb', ('                        verify(not any(True for _ in cur.fetchall()),', '                        verify(not any(True for _ in cur.fetchmany(0)),'), ''),
 ('C07', 'bug', 'mdb', ('                if not allow_overwrite :\n                    with con', '                if not allow_overwrite and getattr(tic_dat, t):\n                    with con'), 'ok? empty table writes nothing -> equivalent for non generator'),
 ('C07', 'bug', 'csvtd', ('        if not os.path.isdir(dir_path) :\n            os.mkdir(dir_path)\n        for t in tdf.all_tables :\n            with', '        if not os.path.isdir(dir_path) :\n            os.mkdir(dir_path)\n        with open(os.path.join(dir_path, "_tables.csv"), "w") as f:\n            f.write(",".join(tdf.all_tables))\n        for t in tdf.all_tables :\n            with'), 'unchecked extra file'),
 ('C07', 'bug', 'sqlitetd', ('            for t in self.tic_dat_factory.all_tables:\n                verify(table_names.get(t) == t, "Failed to find table %s in path %s"%\n                                            (t, db_file_path))\n                verify(allow_overwrite or', '            for t in set(self.tic_dat_factory.all_tables).difference(self.tic_dat_factory.generator_tables):\n                verify(table_names.get(t) == t, "Failed to find table %s in path %s"%\n                                            (t, db_file_path))\n                verify(allow_overwrite or'), 'generators unchecked'),
 ('C07', 'ok', 'sqlitetd', ('                verify(allow_overwrite or not any(True for _ in  con.execute("Select * from [%s]"%t)),\n', '                verify(allow_overwrite or con.execute("Select * from [%s]"%t).fetchone() is None,\n'), ''),
 ('C07', 'ok', 'sqlitetd', ('                verify(allow_overwrite or not any(True for _ in  con.execute("Select * from [%s]"%t)),\n', '                verify(allow_overwrite or con.execute("Select count(*) from [%s]"%t).fetchone()[0] == 0,\n'), ''),
 ('C08', 'bug', 'csvtd', ('        tdf = self.tic_dat_factory\n        msg = []\n        if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :', '        tdf = self.tic_dat_factory\n        msg = []\n        if not tdf.generator_tables and not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :'), ''),
 ('C08', 'bug', 'csvtd', ('            raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))\n        case_space_table', '            TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))\n        case_space_table'), 'not raised'),
 ('C08', 'bug', 'jsontd', ('            return pdf.json.write_file(self.tic_dat_factory.copy_to_pandas(tic_dat, drop_pk_columns=False),\n                                       json_file_path)', '            with open(json_file_path, "w") as fp:\n                fp.write(pdf.json.write_file(self.tic_dat_factory.copy_to_pandas(tic_dat, drop_pk_columns=False), ""))\n            return'), 'file is opened before the object is checked'),
 ('C08', 'bug', 'pandatio', ('        verify(not os.path.isfile(dir_path), "A file is not a valid directory path")\n        msg = []\n        verify(self.pan_dat_factory.good_pan_dat_object(pan_dat, msg.append),', '        verify(not os.path.isfile(dir_path), "A file is not a valid directory path")\n        if not os.path.isdir(dir_path):\n            os.mkdir(dir_path)\n        msg = []\n        verify(self.pan_dat_factory.good_pan_dat_object(pan_dat, msg.append),'), ''),
 ('C08', 'bug', 'pandatio', ('        verify(self.pan_dat_factory.good_pan_dat_object(pan_dat, msg.append),\n               "pan_dat not a good object for this factory : %s"%"\\n".join(msg))\n        pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        if db_file_path:', '        verify(not db_file_path or self.pan_dat_factory.good_pan_dat_object(pan_dat, msg.append),\n               "pan_dat not a good object for this factory : %s"%"\\n".join(msg))\n        pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        if db_file_path:'), 'con path unchecked'),
 ('C08', 'bug', 'xls', ('        msg = []\n        if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :\n            raise TicDatError("Not a valid ticDat object for this schema : " + " : ".join(msg))\n        verify(not os.path.isdir(file_path), "A directory is not a valid xls file path")', '        msg = []\n        self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m))\n        if len(msg) > 1:\n            raise TicDatError("Not a valid ticDat object for this schema : " + " : ".join(msg))\n        verify(not os.path.isdir(file_path), "A directory is not a valid xls file path")'), ''),
 ('C08', 'bug', 'pgtd', ('        if not self.tdf.good_tic_dat_object(tic_dat, lambda m: msg.append(m)):\n            raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))\n        verify(not self.tdf.generic_tables,\n               "TicDat for postgres does not yet support generic tables")\n        self.check_tables_fields(engine, schema, error_on_missing_table=True) # call self.write_schema as needed\n        self._handle_prexisting_rows(engine, schema, pre_existing_rows or {})\n', '        self._handle_prexisting_rows(engine, schema, pre_existing_rows or {})\n        if not self.tdf.good_tic_dat_object(tic_dat, lambda m: msg.append(m)):\n            raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))\n        verify(not self.tdf.generic_tables,\n               "TicDat for postgres does not yet support generic tables")\n        self.check_tables_fields(engine, schema, error_on_missing_table=True) # call self.write_schema as needed\n'), ''),
 ('C08', 'bug', 'pgtd', ('        verify(self.tdf.good_pan_dat_object(pan_dat, msg.append),\n               "pan_dat not a good object for this factory : %s" %"\\n".join(msg))\n        self.check', '        if pre_existing_rows:\n            verify(self.tdf.good_pan_dat_object(pan_dat, msg.append),\n               "pan_dat not a good object for this factory : %s" %"\\n".join(msg))\n        self.check'), ''),
 ('C08', 'bug', 'mdb', ('        _standard_verify(self.tic_dat_factory.generic_tables)\n        msg = []\n        if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :\n            raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))\n        verify(not os.path.isdir(mdb_file_path), "A directory is not a valid Access file path")\n        if not os.path.exists(mdb_file_path) :\n            self.write_schema(mdb_file_path)\n', '        _standard_verify(self.tic_dat_factory.generic_tables)\n        verify(not os.path.isdir(mdb_file_path), "A directory is not a valid Access file path")\n        if not os.path.exists(mdb_file_path) :\n            self.write_schema(mdb_file_path)\n        msg = []\n        if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :\n            raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))\n'), ''),
 ('C08', 'bug', 'sqlitetd', ('        if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :\n            raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))\n        verify(not os.path.isdir(db_file_path)', '        if allow_overwrite and not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :\n            raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))\n        verify(not os.path.isdir(db_file_path)'), ''),
 ('C08', 'bug', 'sqlitetd', ('        if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :\n            raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))\n        verify(allow_overwrite or', '        if not TicDatFactory.create_from_full_schema({}).good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :\n            raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))\n        verify(allow_overwrite or'), 'checked against another factory (would NameError maybe)'),

 ('C09', 'bug', 'csvtd', ('                         writer.writerow(infinty_io_dict(data_row))', '                         writer.writerow(infinty_io_dict(data_row) if containerish(_t) else data_row)'), 'csv generator raw'),
 ('C09', 'bug', 'csvtd', ('writer.writerow(infinty_io_dict(dict(data_row, **primaryKeyDict)))', 'writer.writerow(dict(infinty_io_dict(data_row), **primaryKeyDict))'), 'csv pk raw'),
 ('C09', 'bug', 'csvtd', ('self.tic_dat_factory._infinity_flag_write_cell(t, f, x) for f,x in d.items()}', 'self.tic_dat_factory._infinity_flag_write_cell(t, f.lower(), x) for f,x in d.items()}'), 'csv lower'),
 ('C09', 'bug', 'csvtd', ('return {f: self.tic_dat_factory._infinity_flag_write_cell(t, f, x) for f,x in d.items()}', 'return {f: self.tic_dat_factory._infinity_flag_write_cell(t, f, x) if f in tdf.data_fields.get(t, ()) else x for f,x in d.items()}'), 'csv only data fields'),
 ('C09', 'bug', 'csvtd', ('return {f: self.tic_dat_factory._infinity_flag_write_cell(t, f, x) for f,x in d.items()}', 'return {f: self.tic_dat_factory._infinity_flag_write_cell(t, f, x) if isinstance(x, float) else x for f,x in d.items()}'), 'csv only floats'),
 ('C09', 'bug', 'jsontd', ('row = [write_cell(t, f, x) for f, x in zip(all_fields, row)]\n            return {f:v for f,v in zip(all_fields, row)} if verbose else row', 'cells = [write_cell(t, f, x) for f, x in zip(all_fields, row)]\n            return {f:v for f,v in zip(all_fields, row)} if verbose else cells'), 'json verbose raw'),
 ('C09', 'bug', 'jsontd', ('row = [write_cell(t, f, x) for f, x in zip(all_fields, row)]', 'row = [write_cell(t, f, x) for f, x in zip(sorted(all_fields), row)]'), 'json mispaired sorted'),
 ('C09', 'bug', 'jsontd', ('all_fields = tdf.primary_key_fields.get(t,()) + tdf.data_fields.get(t,())\n        def make_row', 'all_fields = tdf.data_fields.get(t,()) + tdf.primary_key_fields.get(t,())\n        def make_row'), 'json order of fields'),
 ('C09', 'bug', 'jsontd', ('return x if not use_infinity_io_flag_if_provided else', 'return x if not use_infinity_io_flag_if_provided or t in tdf.parameters else'), 'json skip odd'),
 ('C09', 'bug', 'sqlitetd', ('        if x is True or x is False:\n            return str(x)\n        return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)', '        if x is True or x is False:\n            return str(x)\n        if f in self.tic_dat_factory.primary_key_fields.get(t, ()):\n            return x\n        return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)'), 'sqlite pk skipped'),
 ('C09', 'bug', 'sqlitetd', ('                        rtn.append((str, datarow))', '                        rtn.append((str, ((pkrow,) if len(primarykeys)==1 else pkrow) + datarow[len(primarykeys):]))'), 'sqlite pk raw param'),
 ('C09', 'bug', 'sqlitetd', ('                                map(_insert_format, v) if as_sql else ["?"]*len(sqldatarow)))', '                                map(_insert_format, sqldatarow.values()) if as_sql else ["?"]*len(sqldatarow)))'), 'sql file keyless raw'),
 ('C09', 'bug', 'sqlitetd', ('datarow = tuple(self._write_data_cell(t, f, x) for f,x in zip(fields, datarow))', 'datarow = tuple(self._write_data_cell(t, f, x) for f,x in zip(reversed(fields), datarow))'), 'sqlite reversed'),
 ('C09', 'bug', 'sqlitetd', ('self._write_data_cell(t, f, x) for f,x in zip(fields, datarow))', 'self._write_data_cell(t, f, x) for f,x in zip(self.tic_dat_factory.data_fields[t] + primarykeys, datarow))'), 'sqlite misordered'),
 ('C09', 'bug', 'pgtd', ('tuple(self._write_data_cell(t, f, x) for f,x in zip(primarykeys, pkrow)) + \\', 'tuple(pkrow) + \\'), 'pg pk raw'),
 ('C09', 'bug', 'pgtd', ('                fields = list(map(_pg_name, fields))\n                if t in active', '                datarow = tuple(self._write_data_cell(t, _pg_name(f), x) for f, x in the_data.items()) if not primarykeys else datarow\n                fields = list(map(_pg_name, fields))\n                if t in active'), 'pg pgname (double)'),
 ('C09', 'bug', 'pgtd', ('datarow = tuple(self._write_data_cell(t, f, x) for f,x in the_data.items())', 'datarow = tuple(self._write_data_cell(t, _pg_name(f), x) for f,x in the_data.items())'), 'pg pg name'),
 ('C09', 'bug', 'pgtd', ('                    rtn[str].append(datarow)', '                    rtn[str].append(datarow if primarykeys else tuple(the_data.values()))'), 'pg dsn raw'),
 ('C09', 'bug', 'pgtd', ('        if numericish(rtn):\n            rtn = float(rtn)', '        if numericish(x):\n            rtn = float(x)'), 'pg: x converted instead'),
 ('C09', 'bug', 'pgtd', [('        pan_dat = self.tdf._pre_write_adjustment(pan_dat)\n        to_upload', '        adjusted = self.tdf._pre_write_adjustment(pan_dat)\n        to_upload'), ('            df = getattr(pan_dat, table).copy(deep=True)\n            fields', '            df = getattr(pan_dat if table in active_field_tables else adjusted, table).copy(deep=True)\n            fields')], 'pg pan active raw'),
 ('C09', 'bug', 'xls', ('sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cell))\n        if os.path', 'sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[0], cell))\n        if os.path'), 'xls wrong field const'),
 ('C09', 'bug', 'xls', ('            if self.tic_dat_factory.infinity_io_flag != "N/A" or \\', '            if self.tic_dat_factory.infinity_io_flag != "N/A" and \\'), 'xlsx and'),
 ('C09', 'bug', 'xls', ('            if self.tic_dat_factory.infinity_io_flag != "N/A" or \\', '            if self.tic_dat_factory.infinity_io_flag or \\'), 'xlsx falsy None'),
 ('C09', 'bug', 'xls', ('            if self.tic_dat_factory.infinity_io_flag != "N/A" or \\\n               (t == "parameters" and self.tic_dat_factory.parameters):', '            if self.tic_dat_factory.infinity_io_flag != "N/A":'), 'xlsx parameters lost'),
 ('C09', 'bug', 'xls', ('                        write_cell =  clean_for_write(t, all_flds[field_ind], cell)\n                        sheet.write(row_ind+1, field_ind, write_cell)', '                        write_cell =  clean_for_write(t, all_flds[field_ind], cell)\n                        sheet.write(row_ind+1, field_ind, cell if write_cell is None else write_cell)'), 'xlsx None back to raw'),
 ('C09', 'bug', 'mdb', ('                    return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)', '                    return self.tic_dat_factory._infinity_flag_write_cell(table_names[t], f.upper(), x)'), 'mdb upper'),
 ('C09', 'bug', 'mdb', ('data_row = tuple(write_data(f, x) for f, x in sql_data_row.items())', 'data_row = tuple(write_data(f, x) for f, x in sql_data_row.items()) if containerish(_t) else tuple(sql_data_row.values())'), 'mdb gen raw'),
 ('C09', 'bug', 'mdb', ('                def write_data(f, x):\n                    return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)', '                def write_data(f, x, t=self.tic_dat_factory.all_tables[0]):\n                    return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)'), 'mdb wrong table'),
 ('C09', 'bug', 'pandatio', [('        pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        jdict', '        raw, pan_dat = pan_dat, self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        jdict'), ('            faster_df_apply(getattr(pan_dat, t), append_row_list)', '            faster_df_apply(getattr(pan_dat if fields else raw, t), append_row_list)')], 'json generic raw'),
 ('C09', 'bug', 'pandatio', [('        pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        verify("index"', '        if self.pan_dat_factory.infinity_io_flag != \'N/A\':\n            pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        verify("index"')], 'csv pan skip when N/A (parameters, extra columns)'),
 ('C09', 'bug', 'pandatio', [('        pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        if db_file_path', '        if not con:\n            pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        if db_file_path')], 'sql pan skip with con'),
 ('C09', 'bug', 'pandatio', [('        pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        verify(not os.path.isdir(file_path)', '        self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        verify(not os.path.isdir(file_path)')], 'xls pan result dropped'),
 ('C09', 'ok', 'pandatio', [('        pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        verify(not os.path.isdir(file_path)', '        adj = self.pan_dat_factory._pre_write_adjustment\n        pan_dat = adj(pan_dat)\n        verify(not os.path.isdir(file_path)')], 'bound method'),
 ('C10', 'bug', 'csvtd', ('        return self.tic_dat_factory._general_read_cell(table, field, _inner_rtn(x))', '        x = _inner_rtn(x)\n        return x if x is None else self.tic_dat_factory._general_read_cell(table, field, x)'), 'csv None skipped'),
 ('C10', 'bug', 'csvtd', ('        return self.tic_dat_factory._general_read_cell(table, field, _inner_rtn(x))', "        x = _inner_rtn(x)\n        return self.tic_dat_factory._general_read_cell(table, field, x) if self.tic_dat_factory.infinity_io_flag != 'N/A' else x"), 'csv N/A skips dates'),
 ('C10', 'bug', 'csvtd', ('                yield {f: self._read_cell(table, f, row[f]) for f in fieldnames}', '                yield {f: row[f] for f in fieldnames}'), 'csv no header raw'),
 ('C10', 'bug', 'csvtd', ('yield {f: self._read_cell(table, f, row[key_matching[f][0]]) for f in fieldnames}', 'yield {f: self._read_cell(table, key_matching[f][0], row[key_matching[f][0]]) for f in fieldnames}'), 'csv field name as in file'),
 ('C10', 'bug', 'sqlitetd', ('        if stringish(x) and x.lower() in ("inf", "-inf") and self.tic_dat_factory.infinity_io_flag == "N/A" and \\\n            not', '        if stringish(x) and x.lower() in ("inf", "-inf") and \\\n            not'), 'sqlite inf without N/A'),
 ('C10', 'bug', 'sqlitetd', ('yield [self._read_data_cell(table, f, x) for f, x in zip(tdf.data_fields[table], row)]', 'yield [self._read_data_cell(table_name, f, x) for f, x in zip(tdf.data_fields[table], row)]'), 'sqlite gen table_name'),
 ('C10', 'bug', 'sqlitetd', ('data = [self._read_data_cell(table, f, x) for f, x in zip(fields[len(pkfs):], row[len(pkfs):])]', 'data = [self._read_data_cell(table, f, x) for f, x in zip(fields, row[len(pkfs):])]'), 'sqlite mispaired'),
 ('C10', 'bug', 'sqlitetd', ('pk = tuple(self._read_data_cell(table, f, x) for f, x in zip(pkfs, row[:len(pkfs)]))', 'pk = tuple(row[:len(pkfs)])'), 'sqlite pk raw'),
 ('C10', 'bug', 'mdb', ('                        data = row[len(tdf.primary_key_fields.get(table, ())):]', '                        data = row_[len(tdf.primary_key_fields.get(table, ())):]'), 'mdb data raw'),
 ('C10', 'bug', 'mdb', ('yield [tdf._general_read_cell(table, f, x) for f, x in zip(tdf.data_fields[table], row)]', 'yield list(row)'), 'mdb gen raw'),
 ('C10', 'bug', 'mdb', ('row = [tdf._general_read_cell(table, f, x) for f, x in zip(fields, row_)]', 'row = [tdf._general_read_cell(table, f, x) for f, x in zip(sorted(fields), row_)]'), 'mdb sorted'),
 ('C10', 'bug', 'xls', ('            if utils.numericish(rtn) and utils.safe_apply(int)(rtn) == rtn and dt and dt.must_be_int:\n                rtn = int(rtn)', '            if utils.numericish(rtn) and utils.safe_apply(int)(rtn) == rtn and dt and dt.must_be_int:\n                return int(rtn)'), 'xls int early'),
 ('C10', 'bug', 'xls', ('        if self.tic_dat_factory.infinity_io_flag != "N/A" or \\\n            (table', '        if (table'), 'xls treat inf with flag'),
 ('C10', 'bug', 'xls', ('utils.DataFrame({f: [tdf._general_read_cell(t, f, x) for x in df[f]] for f in df.columns})', 'utils.DataFrame({f: [tdf._general_read_cell(t, f, x) for x in df[f]] if df[f].dtype == object else df[f] for f in df.columns})'), 'xls generic numeric raw'),
 ('C10', 'bug', 'jsontd', ('rtn[t].append([tdf._general_read_cell(t, f, x) for f, x in zip(all_fields, row)])', 'rtn[t].append([tdf._general_read_cell(t, f, x) for f, x in zip(all_fields[::-1], row)])'), 'json reversed'),
 ('C10', 'bug', 'jsontd', ('rtn[t].append({f: tdf._general_read_cell(t, f, x) for f, x in row.items()})', 'rtn[t].append({f: tdf._general_read_cell(t, f, x) if f in tdf.data_fields.get(t, ()) else x for f, x in row.items()})'), 'json dict pk raw'),
 ('C10', 'bug', 'jsontd', ('pdf = PanDatFactory.create_from_full_schema(self.tic_dat_factory.schema(include_ancillary_info=True))\n            _rtn', 'pdf = PanDatFactory(**self.tic_dat_factory.schema())\n            _rtn'), 'json pandas partial schema'),
 ('C10', 'bug', 'pgtd', ('rtn[table].append([self._read_data_cell(table, f, x) for f, x in zip(tdf.data_fields[table], row)])', 'rtn[table].append(list(row))'), 'pg keyless'),
 ('C10', 'bug', 'pgtd', ('                    data = [self._read_data_cell(table, f, x) for f, x in\n', '                    data = [self._read_data_cell(table, _pg_name(f), x) for f, x in\n'), 'pg pgname'),
 ('C10', 'bug', 'pgtd', ('        return self.tdf._general_post_read_adjustment(rtn, push_parameters_to_be_valid=True)', '        self.tdf._general_post_read_adjustment(self.tdf.copy_pan_dat(rtn), push_parameters_to_be_valid=True)\n        return rtn'), 'pg pan adj copy dropped'),
 ('C10', 'bug', 'pandatio', ('    return pdf._general_post_read_adjustment(pandat, json_read=json_read,', "    if pdf.infinity_io_flag == 'N/A' and not pdf.parameters:\n        return pandat\n    return pdf._general_post_read_adjustment(pandat, json_read=json_read,"), 'pan skip adj (dates)'),
 ('C10', 'bug', 'pandatio', ('        rtn = _clean_pandat_creator(self.pan_dat_factory, rtn)\n        if self.pan', '        clean = _clean_pandat_creator(self.pan_dat_factory, rtn)\n        rtn = self.pan_dat_factory.PanDat(**rtn)\n        if self.pan'), 'xls pan raw returned'),
 ('C14', 'bug', 'csvtd', ('        if freeze_it:\n            return self.tic_dat_factory.freeze_me(rtn)\n        return rtn', '        if freeze_it and not self.tic_dat_factory.generator_tables:\n            return self.tic_dat_factory.freeze_me(rtn)\n        return rtn'), 'csv gen not frozen'),
 ('C14', 'bug', 'xls', ('        rtn = tdf._parameter_table_post_read_adjustment(tdf.TicDat(**rtn))', "        rtn = tdf.TicDat(**rtn)\n        if not xls_file_path.endswith('.xls'):\n            rtn = tdf._parameter_table_post_read_adjustment(rtn)"), 'xls param'),
 ('C14', 'bug', 'jsontd', ('return pdf.copy_to_tic_dat(_rtn, freeze_it=freeze_it)', 'return pdf.copy_to_tic_dat(_rtn)'), 'json pandas freeze'),
 ('C14', 'bug', 'jsontd', ('return self.create_tic_dat(json_file_path, freeze_it=freeze_it, from_pandas=True)', 'return self.create_tic_dat(json_file_path, from_pandas=True)'), 'json looks pandas freeze'),
 ('C14', 'bug', 'sqlitetd', ('        return self._Rtn(freeze_it)(**self._create_tic_dat_from_sql(', '        return self._Rtn(freeze_it and includes_schema)(**self._create_tic_dat_from_sql('), 'sql freeze'),
 ('C14', 'bug', 'sqlitetd', ('            rtn = self.tic_dat_factory._parameter_table_post_read_adjustment(rtn)\n            if freeze_it:', "            if self.tic_dat_factory.infinity_io_flag == 'N/A':\n                rtn = self.tic_dat_factory._parameter_table_post_read_adjustment(rtn)\n            if freeze_it:"), 'sql param cond'),
 ('C14', 'bug', 'pgtd', ('            rtn = self.tdf._parameter_table_post_read_adjustment(self.tdf.TicDat(*args, **kwargs))\n            if freeze_it:\n                return self.tdf.freeze_me(rtn)\n            return rtn', '            rtn = self.tdf.TicDat(*args, **kwargs)\n            if freeze_it:\n                return self.tdf.freeze_me(rtn)\n            return self.tdf._parameter_table_post_read_adjustment(rtn)'), 'pg frozen no param'),
 ('C14', 'bug', 'mdb', ('        rtn = self.tic_dat_factory._parameter_table_post_read_adjustment(rtn)\n        if freeze_it:\n            return self.tic_dat_factory.freeze_me(rtn)\n        return rtn', '        if freeze_it:\n            return self.tic_dat_factory.freeze_me(rtn)\n        return self.tic_dat_factory._parameter_table_post_read_adjustment(rtn)'), 'mdb'),
 ('C14', 'bug', 'csvtd', ('        rtn = self.tic_dat_factory._parameter_table_post_read_adjustment(rtn)\n        if freeze_it:\n            return self.tic_dat_factory.freeze_me(rtn)\n        return rtn', '        rtn = self.tic_dat_factory._parameter_table_post_read_adjustment(rtn)\n        return self.tic_dat_factory.freeze_me(rtn) if freeze_it is True else rtn'), 'csv is True'),
 ('C14', 'ok', 'mdb', ('        if freeze_it:\n            return self.tic_dat_factory.freeze_me(rtn)\n        return rtn', '        return self.tic_dat_factory.freeze_me(rtn) if freeze_it else rtn'), ''),

 ('C11', 'bug', 'ticdatfactory', ('        if t == "parameters": # infinity flagging doesn\'t apply to parameters table, see set_infinity_flag __doc__\n            return x', '        if t == "parameters" or t in self.generic_tables:\n            return x'), 'tic generic read'),
 ('C11', 'bug', 'ticdatfactory', ('        if t == "parameters": # infinity flagging doesn\'t apply to parameters table. SPEED IS IMPORTANT\n', '        if f in self.primary_key_fields.get(t, ()):\n            return x\n        if t == "parameters": # infinity flagging doesn\'t apply to parameters table. SPEED IS IMPORTANT\n'), 'tic pk write'),
 ('C11', 'bug', 'ticdatfactory', ('dt and not dt.datetime and dt.strings_allowed and dt.number_allowed and self.automunge_multitype_fields:', 'dt and not dt.datetime and dt.strings_allowed and dt.number_allowed and self.automunge_multitype_fields and not utils.numericish(self.infinity_io_flag):'), 'automunge off with flag'),
 ('C11', 'bug', 'pandatfactory', ('                        if utils.numericish(row[f]) and abs(row[f]) >= self.infinity_io_flag:\n                            fields_w_issues.add(f)\n                utils.faster_df_apply(df, find_fields_w_issues)', '                        if utils.numericish(row[f]) and abs(row[f]) >= self.infinity_io_flag:\n                            fields_w_issues.add(f)\n                            break\n                utils.faster_df_apply(df, find_fields_w_issues)'), 'pan read first field only'),
 ('C11', 'bug', 'pandatfactory', ('                        if utils.numericish(row[f]) and abs(row[f]) >= self.infinity_io_flag:\n                            fields_w_issues.add(f)\n                apply(df', '                        if utils.numericish(row[f]) and abs(row[f]) >= self.infinity_io_flag:\n                            fields_w_issues.add(f)\n                            return\n                apply(df'), 'pan write first field only'),
 ('C11', 'bug', 'pandatfactory', ('fld_type.number_allowed and not fld_type.valid_data(None)', 'fld_type.number_allowed and not fld_type.nullable and not fld_type.must_be_int'), 'must be int no bias'),
 ('C11', 'bug', 'ticdatfactory', ('fld_type.number_allowed and not fld_type.valid_data(None)', 'fld_type.number_allowed and not fld_type.strings_allowed and not fld_type.valid_data(None)'), 'mixed type no bias'),
 ('C11', 'bug', 'ticdatfactory', ('for rtn in [1, -1]:', 'for rtn in [1]:'), 'tic bias -1'),
 ('C11', 'bug', 'pandatfactory', ('for rtn in [1, -1]:', 'for rtn in [-1, 1][:1]:'), 'pan bias -1 only'),
 ('C11', 'bug', 'pandatfactory', ('                    fixme = apply(df, lambda row: utils.numericish(row[f]) and row[f] <= -self.infinity_io_flag)\n                    if _safe_any(fixme):\n                        df.loc[fixme, f] = -self', '                    elif_ = apply(df, lambda row: utils.numericish(row[f]) and row[f] <= -self.infinity_io_flag)\n                    if _safe_any(elif_) and not _safe_any(fixme):\n                        df.loc[elif_, f] = -self'), 'neg only when no pos'),
 ('C11', 'bug', 'pandatfactory', ('                if not utils.numericish(self.infinity_io_flag) and utils.numericish(self._none_as_infinity_bias(t, f)):\n                    assert self.infinity_io_flag is None', '                if not utils.numericish(self.infinity_io_flag) and utils.numericish(self._none_as_infinity_bias(t, f)) and dt and not dt.strings_allowed:\n                    assert self.infinity_io_flag is None'), 'pan none read not mixed'),
 ('C11', 'bug', 'pandatfactory', ('                        if row[f] == float("inf") * self._none_as_infinity_bias(t, f):\n                            fields_w_issues.add(f)', '                        if row[f] == float("inf"):\n                            fields_w_issues.add(f)'), 'pan none write -inf unseen'),
 ('C11', 'bug', 'utils', ('def numericish(x) : return isinstance(x, Number) and not isinstance(x, bool)', 'def numericish(x) : return isinstance(x, (int, float)) and not isinstance(x, bool)'), 'numpy ints are not numbers'),
 ('C11', 'bug', 'ticdatfactory', ('        if x is None and self.infinity_io_flag is None and utils.numericish', '        if x is None and self.infinity_io_flag is None and f in self.data_fields.get(t, ()) and utils.numericish'), 'none only data fields'),
 ('C11', 'bug', 'ticdatfactory', ('            if x <= -self.infinity_io_flag:\n                return float("-inf")\n        if x is None', '            if x <= -self.infinity_io_flag and (not dt or dt.valid_data(float("-inf"))):\n                return float("-inf")\n        if x is None'), 'only if valid'),
 ('C11', 'bug', 'pandatfactory', ('            return float("inf") if x >= self.infinity_io_flag else \\\n                (-float("inf") if x <= -self.infinity_io_flag else x)', '            return float("inf") * (1 if x > 0 else -1) if x not in (1, -1) else x'), 'pan over converts'),
 ('C11', 'bug', 'pandatfactory', ('        for t in set(self.all_tables).difference(["parameters"]): # parameters table is handled differently\n            df = getattr(dat, t)', '        for t in set(self.all_tables).difference(["parameters"]): # parameters table is handled differently\n            if push_parameters_to_be_valid and t not in self.data_types and t not in self.generic_tables:\n                continue\n            df = getattr(dat, t)'), 'pan untyped skip'),
 ('C11', 'bug', 'pandatfactory', ('        if self.infinity_io_flag == "N/A" and not self.parameters:\n            return rtn\n        rtn = self.copy', '        if self.infinity_io_flag == "N/A" and not self.parameters or not self.data_types:\n            return rtn\n        rtn = self.copy'), 'pan write untyped'),
 ('C11', 'bug', 'pandatfactory', ('                    df[f] = df[f].apply(lambda x: self._none_as_infinity_bias(t, f) * float("inf")\n                                        if pd.isnull(x) else x)', '                    if df[f].isnull().all():\n                        continue\n                    df[f] = df[f].apply(lambda x: self._none_as_infinity_bias(t, f) * float("inf")\n                                        if pd.isnull(x) else x)'), 'pan none all null'),
 ('C11', 'ok', 'pandatfactory', ('                    df[f] = df[f].apply(lambda x: self._none_as_infinity_bias(t, f) * float("inf")\n                                        if pd.isnull(x) else x)', '                    inf_ = self._none_as_infinity_bias(t, f) * float("inf")\n                    if df[f].isnull().any():\n                        df[f] = [inf_ if pd.isnull(x) else x for x in df[f]]'), 'pan none list'),
 ('C11', 'ok', 'pandatfactory', ('                    df[f] = df[f].apply(lambda x: self._none_as_infinity_bias(t, f) * float("inf")\n                                        if pd.isnull(x) else x)', '                    df[f] = df[f].where(~df[f].isnull(), self._none_as_infinity_bias(t, f) * float("inf"))'), 'pan none where'),
 ('C11', 'ok', 'ticdatfactory', ('            return max(min(x, self.infinity_io_flag), -self.infinity_io_flag)\n', '            flag = self.infinity_io_flag\n            if x > flag:\n                return flag\n            return -flag if x < -flag else x\n'), 'clamp rewritten'),

 ('C15', 'bug', 'ticdatfactory', ('rtn.add_parameter(p, *((df,) + tuple(dt)), enforce_type_rules=True)', 'rtn.add_parameter(p, *((df,) + tuple(dt)[:8]), enforce_type_rules=True)'), 'datetime parameters'),
 ('C15', 'bug', 'ticdatfactory', ('        if "infinity_io_flag" in full_schema:\n            rtn', '        if full_schema.get("infinity_io_flag"):\n            rtn'), 'None flag lost'),
 ('C15', 'bug', 'pandatfactory', ('        if "automunge_multitype_fields" in full_schema:\n', '        if full_schema.get("automunge_multitype_fields"):\n'), 'False lost'),
 ('C15', 'bug', 'ticdatfactory', ('            for f, dv in fdvs.items():\n                rtn.set_default_value(t,f,dv)', '            for f, dv in fdvs.items():\n                if dv:\n                    rtn.set_default_value(t,f,dv)'), 'falsy defaults'),
 ('C15', 'bug', 'pandatfactory', ('                for f, tip in tip_dict.items():\n                    rtn.set_tooltip(t, f, tip)', '                for f, tip in tip_dict.items():\n                    if f:\n                        rtn.set_tooltip(t, f, tip)'), 'table tips'),
 ('C15', 'bug', 'ticdatfactory', ('        tables_fields = {t: [list(self.primary_key_fields.get(t, [])),\n                             list(self.data_fields.get(t, []))]\n                          for t in set', '        tables_fields = {t: [list(self.primary_key_fields.get(t, [])),\n                             sorted(self.data_fields.get(t, []))]\n                          for t in set'), 'field order'),
 ('C15', 'ok', 'ticdatfactory', ('                          for t in set(self.primary_key_fields).union(self.data_fields)}\n        for t in self.generic_tables', '                          for t in self.data_fields}\n        for t in self.generic_tables'), 'tables with no data fields lost'),
 ('C15', 'ok', 'pandatfactory', ('                          for t in set(self.primary_key_fields).union(self.data_fields)}\n', '                          for t in set(self.primary_key_fields)}\n'), 'tables with no pk lost'),
 ('C15', 'bug', 'utils', ('    if field in tdf_pdf.default_values.get(table, {}):\n        rtn', '    if tdf_pdf.default_values.get(table, {}).get(field):\n        rtn'), 'rename falsy default'),
 ('C15', 'bug', 'utils', ('                        [[f for f in flds if (t, f) not in fields_to_remove] for flds in fields]', '                        [[f for f in flds if f not in {_ for __, _ in fields_to_remove}] for flds in fields]'), 'remove a column from all tables'),
 ('C15', 'bug', 'utils', ('            for t, f in fields_to_remove:\n                if f in rtn[k].get(t, {}):\n                    rtn[k][t].pop(f)', '            for t, f in fields_to_remove:\n                rtn[k].pop(t, None)'), 'remove a column: all types of the table'),
 ('C15', 'bug', 'utils', ('                        return (fk.native_table, mp.native_field) not in fields_to_remove and \\\n                               (fk.foreign_table, mp.foreign_field) not in fields_to_remove', '                        return not {(fk.native_table, mp.native_field), (fk.native_table, mp.foreign_field),\n                               (fk.foreign_table, mp.foreign_field)}.intersection(fields_to_remove)'), 'fk over-removed'),
 ('C15', 'bug', 'utils', ('args = ("data", tdf_pdf.data_fields[table].index(field))', 'args = ("data",)'), 'rename loses position'),
 ('C15', 'bug', 'utils', ('.insert(field_position, field)', '.append(field)'), 'position ignored'),
 ('C15', 'bug', 'ticdatfactory', ('                        rtn.add_data_row_predicate(tbl, predicate=rpi.predicate, predicate_name=pn,\n', '                        rtn.add_data_row_predicate(tbl, predicate=rpi.predicate,\n'), 'name lost'),
 ('C15', 'bug', 'ticdatfactory', ('            if table_restrictions is None or tbl in table_restrictions:\n                for pn', '            if not table_restrictions or tbl in rtn.data_fields:\n                for pn'), "pk only tables' predicates"),
 ('C15', 'bug', 'ticdatfactory', ('rtn.set_generator_tables([t for t in self.generator_tables if t in rtn.all_tables])', 'rtn.set_generator_tables([t for t in self.generator_tables if t in rtn.all_tables and not table_restrictions])'), 'gen'),
 ('C15', 'bug', 'pandatfactory', ('rtn.set_data_type(t, f, *dt)', 'rtn.set_data_type(t, f, *[_ if _ is not None else False for _ in dt[:7]], nullable=dt[8], datetime=dt[7])'), 'swapped'),
 ('C15', 'bug', 'pandatfactory', ('rtn.add_foreign_key(*fk[:3])', "rtn.add_foreign_key(fk[0], fk[1], fk[2] if hasattr(fk[2], 'native_field') else fk[2][0])"), 'compound fk'),
 ('C15', 'bug', 'ticdatfactory', ('    def parameters(self):\n        return FrozenDict(self._parameters)', '    def parameters(self):\n        return FrozenDict({k: v for k, v in self._parameters.items() if v.type_dictionary})'), 'untyped parameters'),
 ('C15', 'bug', 'ticdatfactory', ('        for p, (dt, df) in (params or {}).items():\n            if dt is None:\n                rtn.add_parameter(p, df, enforce_type_rules=False)', "        for p, (dt, df) in (params or {}).items():\n            if dt is None:\n                rtn.add_parameter(p, df, strings_allowed='*')"), 'untyped becomes typed'),
 ('C15', 'bug', 'utils', ('        elif k == "parameters":\n            rtn[k] = v if k in table_restrictions else {}', '        elif k == "parameters":\n            rtn[k] = v if k in table_restrictions and not fields_to_remove else {}'), 'params lost on column removal'),
 ('C15', 'bug', 'ticdatfactory', ('            rtn._convert_dat[:] = self._convert_dat[:]\n', '            rtn._convert_dat[:] = self._convert_dat[:1] + [set()]\n'), 'convert_dat set lost'),
 ('C15', 'bug', 'pandatfactory', ('            rtn.set_duplicates_ticdat_init(full_schema["duplicates_ticdat_init"])', '            rtn.set_duplicates_ticdat_init(rtn.duplicates_ticdat_init)'), 'dup'),
 ('C15', 'ok', 'ticdatfactory', ('        for fk in (fks or []):\n            rtn.add_foreign_key(*fk[:3])', '        for (native, foreign, mapping) in [tuple(fk)[:3] for fk in (fks or ())]:\n            rtn.add_foreign_key(native, foreign, mapping)'), 'fk unpack'),
 ('C15', 'ok', 'utils', ('            rtn[k] = tuple(fk for fk in v if good_fk(fk))', '            kept = []\n            for fk in v:\n                if good_fk(fk):\n                    kept.append(fk)\n            rtn[k] = tuple(kept)'), 'fk loop'),

 ('C15', 'bug', 'ticdatfactory', ('                             list(self.data_fields.get(t, []))]\n                          for t in set', '                             list(set(self.data_fields.get(t, [])))]\n                          for t in set'), 'field order set'),
 ('C15', 'bug', 'utils', ('                        [[f for f in flds if (t, f) not in fields_to_remove] for flds in fields]', '                        [sorted(f for f in flds if (t, f) not in fields_to_remove) for flds in fields]'), 'sorted restrict'),
 ('C15', 'bug', 'utils', ('                        [[f for f in flds if (t, f) not in fields_to_remove] for flds in fields]', '                        [[f for f in flds if (t, f) not in fields_to_remove] for flds in reversed(fields)]'), 'reversed restrict'),
 ('C15', 'bug', 'utils', ('                        [[f for f in flds if (t, f) not in fields_to_remove] for flds in fields]', '                        [list(set(flds).difference(f for _, f in fields_to_remove if _ == t)) for flds in fields]'), 'set difference'),
 ('C15', 'bug', 'utils', ('        full_schema["tables_fields"][table] = [list(pk_fields), list(df_fields)]', '        full_schema["tables_fields"][table] = [list(df_fields), list(pk_fields)]'), 'swapped pk, df'),
 ('C15', 'bug', 'utils', ('        full_schema["tables_fields"][table][{"primary key": 0, "data": 1}[field_type]].insert(field_position, field)', '        full_schema["tables_fields"][table][1].insert(field_position, field)'), 'type ignored'),
 ('C15', 'ok', 'utils', ('        full_schema["tables_fields"][table][{"primary key": 0, "data": 1}[field_type]].insert(field_position, field)', '        pks, dfs = full_schema["tables_fields"][table]\n        if field_type == "primary key":\n            pks.insert(field_position, field)\n        else:\n            dfs.insert(field_position, field)'), 'if instead'),
 ('C15', 'ok', 'utils', ('        full_schema["tables_fields"][table][{"primary key": 0, "data": 1}[field_type]].insert(field_position, field)', '        flds = full_schema["tables_fields"][table][{"primary key": 0, "data": 1}[field_type]]\n        flds[field_position:field_position] = [field]'), 'slice assign'),
 ('C15', 'bug', 'ticdatfactory', ('        return utils.clone_add_a_column(self, table, field, field_type, field_position)', '        return utils.clone_add_a_column(self, table, field, field_type)'), 'position not forwarded'),
 ('C15', 'bug', 'pandatfactory', ('        return utils.clone_rename_a_column(self, table, field, new_field)', '        return utils.clone_rename_a_column(self, table, new_field, field)'), 'swapped'),

 ('C21', 'bug', 'ticdatfactory', ('                    real_replacements[table, field] = replacement_values.get((table, field),\n                        self._default_values.get(table, {}).get(field, 0))', '                    real_replacements[table, field] = replacement_values.get((table, field)) or \\\n                        self._default_values.get(table, {}).get(field, 0)'), 'falsy replacement'),
 ('C21', 'bug', 'ticdatfactory', ('                        self._default_values.get(table, {}).get(field, 0))\n        for', '                        self._default_values.get(table, {}).get(field) or 0)\n        for'), 'falsy default'),
 ('C21', 'bug', 'ticdatfactory', ('                for pk in pks:\n                    getattr(tic_dat, table)[pk][field] =', '                for pk in pks:\n                    if not isinstance(pk, int) or self.primary_key_fields[table]:\n                        getattr(tic_dat, table)[pk][field] ='), 'keyless skipped'),
 ('C21', 'bug', 'ticdatfactory', ('                    getattr(tic_dat, table)[pk][field] = real_replacements[table, field]', '                    row = dict(getattr(tic_dat, table)[pk])\n                    row[field] = real_replacements[table, field]'), 'edits a copy'),
 ('C21', 'bug', 'pandatfactory', ('            if (table, field) in real_replacements:\n                data', '            if real_replacements.get((table, field)):\n                data'), 'falsy replacement not made'),
 ('C21', 'bug', 'ticdatfactory', ('            if (table, field) in replacements_needed:\n                verify', '            if (table, field) in replacements_needed and (table, field) in replacement_values:\n                verify'), 'defaults not checked'),
 ('C21', 'bug', 'ticdatfactory', [('needs_removal = set()', 'needs_removal = {}'), ('needs_removal.add((fk.native_table, failed_pk))', 'needs_removal[fk.native_table] = failed_pk'), ('sorted(needs_removal, reverse=True)', 'sorted(needs_removal.items(), reverse=True)')], 'one per table'),
 ('C21', 'bug', 'ticdatfactory', ('sorted(needs_removal, reverse=True)', 'sorted(needs_removal, key=lambda x: x[0], reverse=True)'), 'positions unsorted'),
 ('C21', 'ok', 'ticdatfactory', ('            return self.remove_foreign_key_failures(tic_dat)\n        return tic_dat', '            self.remove_foreign_key_failures(tic_dat)\n        return tic_dat'), 'result of recursion not needed'),
 ('C21', 'bug', 'pandatfactory', ('        while remove_rows:\n', '        for _ in range(len(self.foreign_keys)):\n            if not remove_rows:\n                break\n'), 'bounded'),
 ('C21', 'bug', 'ticdatfactory', ('if field not in self.primary_key_fields[table]:', 'if field not in self.primary_key_fields:'), 'pk of the table'),
 ('C21', 'bug', 'pandatfactory', ('data_type = self._true_data_types()[table][field]', 'data_type = self.data_types[table][field]'), 'untyped pk KeyError'),
 ('C21', 'bug', 'pandatfactory', ('                    return not data_type.valid_data(None if isnull(data) else data)\n                getattr', '                    return isnull(data) or not data_type.valid_data(data)\n                getattr'), 'nullable nulls replaced'),
 ('C21', 'bug', 'pandatfactory', ('                    return not data_type.valid_data(None if isnull(data) else data)\n                getattr', '                    return not isnull(data) and not data_type.valid_data(data)\n                getattr'), 'nulls not replaced'),
 ('C21', 'ok', 'pandatfactory', ('                    return not data_type.valid_data(None if isnull(data) else data)\n                getattr', '                    return not data_type.valid_data(data)\n                getattr'), 'valid_data copes with nulls'),
 ('C21', 'bug', 'pandatfactory', ('                real_replacements[table, field] if bad_row(row) else row[field])', '                real_replacements[table, field] if bad_row(row) else next(iter(row)))'), 'other cell'),
 ('C21', 'bug', 'ticdatfactory', ('        for (table, field), (vals, pks) in replacements_needed.items() :\n            if', '        for (table, field), (vals, pks) in replacements_needed.items() :\n            if None in vals and len(vals) == 1: continue\n            if'), 'only nulls skipped'),
 ('C21', 'bug', 'ticdatfactory', ('                    if failed_pk in getattr(tic_dat, fk.native_table) :\n                        del(getattr(tic_dat, fk.native_table)[failed_pk])', '                    getattr(tic_dat, fk.native_table).pop(failed_pk, None)\n                    if len(fk.mapping) > 1 and not hasattr(fk.mapping, "native_field"):\n                        break'), 'break after compound'),

 ('C18', 'bug', 'sqlitetd', ('isinstance(x, (datetime.date, datetime.timedelta))', 'isinstance(x, datetime.date)'), 'timedelta bare'),
 ('C18', 'bug', 'sqlitetd', ('    if stringish(x):\n        return', '    if stringish(x) and not x.isdigit():\n        return'), 'digit strings bare'),
 ('C18', 'bug', 'sqlitetd', ('    if stringish(x):\n        return "\'%s\'"%_fix_str(x)', '    if stringish(x):\n        return "\'%s\'"%(_fix_str(x) if len(x) < 1000 else x)'), 'long strings unescaped'),
 ('C18', 'bug', 'sqlitetd', ('        if c != "\'" or "\'" in (preceeding, following):\n            rtn.append(c)\n        else:\n            rtn.append("\'\'")', '        rtn.append(c)'), 'escape gone'),
 ('C18', 'bug', 'sqlitetd', ('    if x is None or x != x:\n        return "null"', '    if x is None:\n        return "null"'), 'nan bare'),
 ('C18', 'bug', 'sqlitetd', ('map(_insert_format, datarow) if as_sql else ("?" for _ in fields)', 'map(_insert_format, datarow) if as_sql or len(fields) > 999 else ("?" for _ in fields)'), 'wide tables pasted'),
 ('C18', 'bug', 'sqlitetd', ('"%(",".join(_brackets(nativefields)),\n', '"%(",".join(nativefields),\n'), 'fk names bare'),
 ('C18', 'bug', 'sqlitetd', ('                strl.append("PRIMARY KEY(%s)"%(",".join(_brackets(self.tic_dat_factory.primary_key_fields[t]))))', '                strl.append("PRIMARY KEY(%s)"%(",".join(self.tic_dat_factory.primary_key_fields[t])))'), 'pk names bare'),
 ('C18', 'bug', 'sqlitetd', ('                   ["[%s] " % f + data_type(t,f)', '                   [("%s " if f.isidentifier() else "[%s] ") % f + data_type(t,f)'), 'identifiers bare (reserved words)'),
 ('C18', 'bug', 'sqlitetd', ('PRAGMA table_info([%s])', 'PRAGMA table_info(%s)'), 'pragma bare'),
 ('C18', 'bug', 'sqlitetd', ('                con.execute("Delete from [%s]"%t)', '                con.execute("Delete from %s"%t)'), 'delete bare'),
 ('C18', 'bug', 'sqlitetd', ('def _brackets(l) :\n    return ["[%s]"%_ for _ in l]', 'def _brackets(l) :\n    return ["[%s]"%_ if \' \' in _ else _ for _ in l]'), 'brackets only with space'),
 ('C18', 'bug', 'pgtd', ('fields = [_pg_name(f) for f in tdf.primary_key_fields.get(table, ()) +', 'fields = [f for f in tdf.primary_key_fields.get(table, ()) +'), 'pg read names raw'),
 ('C18', 'bug', 'pgtd', ('VALUES ({\', \'.join(f\':{_}\' for _ in fields)})"', 'VALUES ({\', \'.join(repr(_) for _ in datarow)})"'), 'pg pasted'),
 ('C18', 'bug', 'pgtd', ('                    str = f"INSERT INTO {schema}.{t} ({\', \'.join(fields)}) VALUES %s"\n                    rtn[str].append(datarow)', '                    str = f"INSERT INTO {schema}.{t} ({\', \'.join(fields)}) VALUES " + "%s" % (datarow,)\n                    rtn[str].append(datarow)'), 'pg dict pasted'),
 ('C18', 'bug', 'pgtd', ('df.rename(columns={f: _pg_name(f) for f in fields}, inplace=True)', 'df.rename(columns={f: f.lower() for f in fields}, inplace=True)'), 'pandas names not pg'),
 ('C18', 'bug', 'pgtd', ('    rtn = [_ if _.isalnum() else "_" for _ in name.lower()]', '    rtn = [_ if _.isalnum() or _ == \'-\' else "_" for _ in name.lower()]'), 'pg name lets - through'),
 ('C18', 'bug', 'pgtd', ('    if rtn and rtn[0].isdigit():\n        rtn[0] = "_"\n', ''), 'pg name digits first'),
 ('C18', 'bug', 'pgtd', ('[(f, _pg_name(f)) for f in self.tdf.primary_key_fields.get(table, ()) +\n                      self.tdf.data_fields.get(table, ())]', '[(f, f if f.isidentifier() else _pg_name(f)) for f in self.tdf.primary_key_fields.get(table, ()) +\n                      self.tdf.data_fields.get(table, ())]'), 'identifier fields raw (uppercase)'),
 ('C18', 'bug', 'mdb', ('(", ".join(_brackets(tdf.data_fields[table]))', '(", ".join(tdf.data_fields[table])'), 'mdb generator fields raw'),
 ('C18', 'bug', 'pandatio', ('con.execute("Select * from [%s]"%name)', 'con.execute("Select * from %s"%name)'), 'pan name raw'),
 ('C18', 'bug', 'pandatio', ('pd.read_sql(sql="Select * from [%s]"%s', 'pd.read_sql(sql="Select * from %s"%s'), 'pan read raw'),
 ('C18', 'ok', 'sqlitetd', ('def _brackets(l) :\n    return ["[%s]"%_ for _ in l]', 'def _brackets(l) :\n    return ["[" + _ + "]" for _ in l]'), ''),
 ('C18', 'ok', 'sqlitetd', ('    return "".join(rtn)\n\ndef _insert', '    return x.replace("\'", "\'\'")\n\ndef _insert'), ''),
 ('C18', 'ok', 'pgtd', ('VALUES ({\', \'.join(f\':{_}\' for _ in fields)})"', 'VALUES ({\', \'.join(\':\' + _ for _ in fields)})"'), ''),
 ('C18', 'ok', 'sqlitetd', ('    if x in (float("inf"), -float("inf")) or isinstance(x, (datetime.date, datetime.timedelta)):\n        return "\'%s\'"%x\n    if x is None or x != x:\n        return "null"\n', '    if x is None or x != x:\n        return "null"\n    if isinstance(x, (datetime.date, datetime.timedelta)):\n        return "\'" + str(x) + "\'"\n    if x in (float("inf"), -float("inf")):\n        return f"\'{x}\'"\n'), ''),
 ('C18', 'ok', 'pgtd', ('    rtn = [_ if _.isalnum() else "_" for _ in name.lower()]\n    if rtn and rtn[0].isdigit():\n        rtn[0] = "_"\n    return "".join(rtn)', '    rtn = "".join(_ if _.isalnum() else "_" for _ in name.lower())\n    if rtn[:1].isdigit():\n        return "_" + rtn[1:]\n    return rtn'), ''),
 ('C18', 'ok', 'pgtd', ('    rtn = [_ if _.isalnum() else "_" for _ in name.lower()]\n', '    rtn = []\n    for ch in name.lower():\n        if not ch.isalnum():\n            rtn.append("_")\n        else:\n            rtn.append(ch)\n'), ''),
 ('C18', 'ok', 'pgtd', ('df.rename(columns={f: _pg_name(f) for f in fields}, inplace=True)', 'df = df.rename(columns=dict((f, _pg_name(f)) for f in fields))'), ''),
 ('C18', 'ok', 'pgtd', ('df.rename(columns={f: _pg_name(f) for f in fields}, inplace=True)', 'new_names = {}\n            for f in fields:\n                new_names[f] = _pg_name(f)\n            df.rename(columns=new_names, inplace=True)'), ''),

 ('C28', 'bug', 'sqlitetd', ('        verify(os.path.exists(db_file_path), "%s isn\'t a valid file path"%db_file_path)\n        try :\n            with sql.connect(db_file_path) as _:\n                pass\n        except Exception as e:\n            raise TDE("Unable to open %s as SQLite file : %s"%(db_file_path, e))\n', '        try :\n            with sql.connect(db_file_path) as _:\n                pass\n        except Exception as e:\n            raise TDE("Unable to open %s as SQLite file : %s"%(db_file_path, e))\n        verify(os.path.exists(db_file_path), "%s isn\'t a valid file path"%db_file_path)\n'), 'check after connect'),
 ('C28', 'bug', 'sqlitetd', ('        with sql.connect(db_file_path) as con:\n            rtn =', '        with sql.connect(db_file_path) as con:\n            con.execute("PRAGMA journal_mode=WAL")\n            rtn ='), 'wal'),
 ('C28', 'bug', 'sqlitetd', ('                con.executescript(f.read())', "                con.executescript(f.read())\n                if os.path.exists(sql_file_path[:-4] + '.db'):\n                    os.remove(sql_file_path[:-4] + '.db')"), 'removes sibling'),
 ('C28', 'bug', 'pandatio', ('pd.read_sql(sql="Select * from [%s]"%s, con=con_)', 'pd.read_sql(sql="Select * into [tmp] from [%s]"%s, con=con_)'), 'select into'),
 ('C28', 'bug', 'pandatio', ('con_maker = lambda: _sql_con(db_file_path) if db_file_path else _DummyContextManager(con)', 'con_maker = lambda: _sql_con(db_file_path) if db_file_path else con'), "caller's connection committed"),
 ('C28', 'bug', 'pandatio', ('            for t, s in self._get_table_names(con_).items():\n', '            con_.rollback()\n            for t, s in self._get_table_names(con_).items():\n'), "rollback of caller's transaction"),
 ('C28', 'bug', 'pgtd', ('        missing_tables = self.check_tables_fields(engine, schema)\n        rtn = {}\n        for table in set(tdf.', '        missing_tables = self.check_tables_fields(engine, schema)\n        engine.execute(saxt(f"SET search_path TO {schema}"))\n        rtn = {}\n        for table in set(tdf.'), 'set'),
 ('C28', 'bug', 'pgtd', ('    return {_[0] for _ in engine.execute(saxt("SELECT table_name', '    engine.commit() if hasattr(engine, \'commit\') else None\n    return {_[0] for _ in engine.execute(saxt("SELECT table_name'), 'commit'),
 ('C28', 'bug', 'xls', ('                openpyxl.load_workbook(xls_file_path, data_only=True)\n', '                openpyxl.load_workbook(xls_file_path, data_only=True)\n            if not xls_file_path.endswith(".xls") and not book.worksheets[0].title.strip():\n                book.worksheets[0].title = \'Sheet\'\n                book.save(xls_file_path)\n'), 'saves book'),
 ('C28', 'bug', 'pandatio', ('            xl = pd.ExcelFile(xls_file_path)', "            xl = pd.ExcelWriter(xls_file_path, mode='a')"), 'writer'),
 ('C28', 'bug', 'csvtd', ('            with open(file_path, encoding=encoding) as csvfile:\n                for r in self._get_data(csvfile, table, dialect, headers_present) :', "            with open(file_path, 'r' if os.access(file_path, os.W_OK) else 'w', encoding=encoding) as csvfile:\n                for r in self._get_data(csvfile, table, dialect, headers_present) :"), 'mode'),
 ('C28', 'bug', 'csvtd', ('                with open(file_path, encoding=encoding) as csvfile:\n                    for r in self._get_data(', '                os.utime(file_path)\n                with open(file_path, encoding=encoding) as csvfile:\n                    for r in self._get_data('), 'utime in generator'),
 ('C28', 'bug', 'csvtd', ('        if not (file_path and  os.path.isfile(file_path)) :\n            return\n', "        if not (file_path and  os.path.isfile(file_path)) :\n            open(os.path.join(dir_path, table + '.csv'), 'a').close()\n            return\n"), 'touches missing'),
 ('C28', 'bug', 'jsontd', ('                raise TicDatError("Unable to interpret %s as json file', '                os.rename(path_or_buf, path_or_buf + \'.bad\')\n                raise TicDatError("Unable to interpret %s as json file'), 'renames bad'),
 ('C28', 'bug', 'csvtd', ('        verify(os.path.isdir(dir_path), "Invalid directory path %s"%dir_path)', '        os.makedirs(dir_path, exist_ok=True)\n        verify(os.path.isdir(dir_path), "Invalid directory path %s"%dir_path)'), 'makedirs'),
 ('C28', 'bug', 'sqlitetd', ('                        con.execute("Select [%s] from [%s]"%(field, sql_table))\n', '                        con.execute("Select [%s] from [%s]"%(field, sql_table))\n                        if field in tdf.primary_key_fields.get(table, ()):\n                            con.execute("Create index if not exists [ix_%s] on [%s] ([%s])"%(field, sql_table, field))\n'), 'index'),
 ('C28', 'bug', 'mdb', ('        with _connect(_connection_str(mdb_file_path)) as con:\n            for table, mdb_table', '        with _connect(_connection_str(mdb_file_path)) as con:\n            con.cursor().execute("Drop table [~tmp]").commit() if 0 in tables else None\n            for table, mdb_table'), 'drop'),
 ('C28', 'ok', 'sqlitetd', ('        verify(os.path.exists(db_file_path), "%s isn\'t a valid file path"%db_file_path)\n        try :', '        verify(os.path.isfile(db_file_path), "%s isn\'t a valid file path"%db_file_path)\n        try :'), ''),
 ('C28', 'ok', 'sqlitetd', ('        with sql.connect(db_file_path) as con:\n            rtn =', "        with sql.connect(f'file:{db_file_path}?mode=ro', uri=True) as con:\n            rtn ="), 'read only'),
 ('C28', 'ok', 'jsontd', ('with open(path_or_buf, "r") as fp:\n                    jdict = json.load(fp)', 'with open(path_or_buf, mode="r") as fp:\n                    jdict = json.loads(fp.read())'), ''),
 ('C28', 'ok', 'pandatio', ('            xl = pd.ExcelFile(xls_file_path)', '            xl = pd.ExcelFile(xls_file_path, engine=None)'), ''),

 ('C04', 'bug', 'utils', ('            if getattr(self, "_dataFrozen", False) :\n                raise TicDatError("Can\'t edit a frozen TicDatDataRow")\n            self._data[fieldtoindex[key]] = value\n        def keys', '            if getattr(self, "_dataFrozen", False) and self._data[fieldtoindex[key]] != 0 :\n                raise TicDatError("Can\'t edit a frozen TicDatDataRow")\n            self._data[fieldtoindex[key]] = value\n        def keys'), 'zeros editable'),
 ('C04', 'bug', 'utils', ('            return tuple(self._data)\n', '            return self._data\n'), 'values leaks list'),
 ('C04', 'bug', 'utils', ('    def pop(self, *args, **kwargs) :\n        if not getattr(self, "_dataFrozen", False) :', '    def pop(self, *args, **kwargs) :\n        if len(args) > 1 or not getattr(self, "_dataFrozen", False) :'), 'pop with default'),
 ('C04', 'bug', 'ticdatfactory', ('                            setattr(self, t, tuple(_t))\n', '                            if len(_t) : setattr(self, t, tuple(_t))\n'), 'empty keyless not frozen'),
 ('C04', 'bug', 'ticdatfactory', ('                            if not getattr(v, "_dataFrozen", False) :\n                                v._dataFrozen =True\n', '                            if len(v) > 1 and not getattr(v, "_dataFrozen", False) :\n                                v._dataFrozen =True\n'), 'one field rows'),
 ('C04', 'bug', 'ticdatfactory', ('                        if utils.dictish(_t) :\n                            _t._dataFrozen  = True\n', '                        if utils.dictish(_t) and len(_t):\n                            _t._dataFrozen  = True\n'), 'empty dict tables'),
 ('C04', 'bug', 'ticdatfactory', ('if utils.dictish(_t) and not getattr(_t, "_attributesFrozen", False) :', 'if utils.dictish(_t) and len(_t) and not getattr(_t, "_attributesFrozen", False) :'), 'empty links'),
 ('C04', 'bug', 'ticdatfactory', ('                self._isFrozen = True\n            def __repr__(self):\n                tlen', '                if not self._made_foreign_links: self._isFrozen = True\n            def __repr__(self):\n                tlen'), 'obj with links'),
 ('C04', 'bug', 'utils', ('            if key in alwaysEditable or not getattr(self, freezeAttr, False):', "            if key in alwaysEditable or key.startswith('_') or not getattr(self, freezeAttr, False):"), 'underscores: _dataFrozen = False possible'),
 ('C04', 'bug', 'utils', ('            return super(_FreezableDictBase, self).__setattr__(key, value)\n        return super(FreezeableDict, self)', '            return super(_FreezableDictBase, self).__setattr__(key, value)\n        if key == "_attributesFrozen": return super(_FreezableDictBase, self).__setattr__(key, value)\n        return super(FreezeableDict, self)'), 'unfreeze attributes'),
 ('C04', 'ok', 'utils', ('            if getattr(self, "_dataFrozen", False) :\n                raise TicDatError("Can\'t edit a frozen TicDatDataRow")\n            self._data[fieldtoindex[key]] = value\n        def keys', '            verify(not getattr(self, "_dataFrozen", False), "Can\'t edit a frozen TicDatDataRow")\n            self._data[fieldtoindex[key]] = value\n        def keys'), 'verify'),
 ('C04', 'ok', 'utils', [('    def pop(self, *args, **kwargs) :\n        if not getattr(self, "_dataFrozen", False) :\n            return super(FreezeableDict, self).pop(*args, **kwargs)\n        raise TicDatError("Can\'t edit a frozen " + self.__class__.__name__)\n', '    def _check(self):\n        if getattr(self, "_dataFrozen", False):\n            raise TicDatError("Can\'t edit a frozen " + self.__class__.__name__)\n    def pop(self, *args, **kwargs) :\n        self._check()\n        return super(FreezeableDict, self).pop(*args, **kwargs)\n'), ('        if not getattr(self, "_dataFrozen", False) :\n            return super(FreezeableDict, self).popitem()\n        raise TicDatError("Can\'t edit a frozen " + self.__class__.__name__)\n', '        self._check()\n        return super(FreezeableDict, self).popitem()\n')], 'helper'),
 ('C04', 'ok', 'ticdatfactory', ('                        for v in getattr(_t, "values", lambda : _t)() :\n                            if not', '                        rows = _t.values() if utils.dictish(_t) else _t\n                        for v in rows :\n                            if not'), 'rows'),
 ('C04', 'ok', 'ticdatfactory', ('                for t in set(superself.all_tables).difference(superself.generic_tables):\n                    _t = getattr(self, t)\n                    if utils.dictish(_t)', '                for t in superself.all_tables:\n                    if t in superself.generic_tables: continue\n                    _t = getattr(self, t)\n                    if utils.dictish(_t)'), 'continue'),
 ('C16', 'bug', 'ticdatfactory', ('                            def _p(row):\n                                try:\n                                    return rpi.predicate(row, **predicate_kwargs)\n                                except:\n                                    return False\n', '                            def _p(row):\n                                try:\n                                    return rpi.predicate(row, **predicate_kwargs)\n                                except (TypeError, ValueError, KeyError, AttributeError):\n                                    return False\n'), 'some exceptions'),
 ('C16', 'bug', 'pandatfactory', ('                        def _p(row):\n                            try:\n                                return rpi.predicate(row, **predicate_kwargs)\n                            except:\n                                return False\n', '                        def _p(row):\n                            try:\n                                return rpi.predicate(row, **predicate_kwargs)\n                            except:\n                                return isnull(row.iloc[0])\n'), ''),
 ('C16', 'bug', 'pandatfactory', ('exception_handling = "Unhandled" if __debug__ else "Handled as Failure"', 'exception_handling = "Unhandled" if __debug__ and not as_table else "Handled as Failure"'), ''),
 ('C16', 'bug', 'ticdatfactory', ('                        if exception_handling == "Unhandled":\n                            _p = lambda', '                        if exception_handling == "Unhandled" and rpi.predicate_failure_response == "Boolean":\n                            _p = lambda'), ''),
 ('C16', 'bug', 'pandatfactory', ('                        predicate = (lambda row: rpi.predicate(row, **predicate_kwargs)) \\\n                                    if exception_handling == "Unhandled" else (lambda row: _p(row))', '                        predicate = lambda row: _p(row)'), ''),
 ('C16', 'bug', 'pandatfactory', ('                if not isinstance(predicate_kwargs, dict):\n                    rtn[TPN', '                if not isinstance(predicate_kwargs, dict) and len(_table):\n                    rtn[TPN'), 'then ** of str'),
 ('C16', 'bug', 'ticdatfactory', ('                    if not isinstance(predicate_kwargs, dict):\n                        rtn[tbl, pn] =', '                    if isinstance(predicate_kwargs, str):\n                        rtn[tbl, pn] ='), 'not dict'),
 ('C16', 'bug', 'ticdatfactory', ('                    if not isinstance(predicate_kwargs, dict):\n', '                    if predicate_kwargs and not isinstance(predicate_kwargs, dict):\n'), 'None'),
 ('C16', 'ok', 'ticdatfactory', ('                        if rpi.predicate_failure_response == "Boolean":\n                            def _p(row):\n                                try:\n                                    return rpi.predicate(row, **predicate_kwargs)\n                                except:\n                                    return False\n                        else:\n                            def _p(row):\n                                try:\n                                    return rpi.predicate(row, **predicate_kwargs)\n                                except Exception as e:\n                                    return f"Exception<{e}>"\n                        if exception_handling == "Unhandled":\n                            _p = lambda row: rpi.predicate(row, **predicate_kwargs)\n', '                        def _p(row):\n                            if exception_handling == "Unhandled":\n                                return rpi.predicate(row, **predicate_kwargs)\n                            try:\n                                return rpi.predicate(row, **predicate_kwargs)\n                            except Exception as e:\n                                return False if rpi.predicate_failure_response == "Boolean" else f"Exception<{e}>"\n'), 'merged'),
 ('C17', 'bug', 'ticdatfactory', ('                            for i, data_row in enumerate(_table):\n                                if handle', '                            for i, data_row in enumerate(_table, 1):\n                                if handle'), 'positions 1-based'),
 ('C17', 'bug', 'ticdatfactory', ('                        if foreign_look_up not in foreign_look_into:\n', '                        if foreign_look_up not in foreign_look_into and foreign_look_up is not None:\n'), 'None skipped'),
 ('C17', 'bug', 'ticdatfactory', ('                                rtn_values[(table, field)].add(full_row[field])\n                                rtn_pks[(table, field)].add(pk)\n', '                                if full_row[field] not in rtn_values[(table, field)]:\n                                    rtn_pks[(table, field)].add(pk)\n                                rtn_values[(table, field)].add(full_row[field])\n'), 'dup values lose pks'),
 ('C17', 'bug', 'pandatfactory', ('return not data_type.valid_data(None if isnull(data) else data)\n                if max_failures', 'return not data_type.valid_data(0 if isnull(data) else data)\n                if max_failures'), ''),
 ('C17', 'bug', 'pandatfactory', ('                        where_bad_rows = predicate_result.apply(lambda x: x is not True)\n', '                        where_bad_rows = predicate_result.apply(lambda x: isinstance(x, str))\n'), ''),
 ('C17', 'bug', 'pandatfactory', ('                        where_bad_rows = predicate_result.apply(lambda x: x is not True)\n', '                        where_bad_rows = predicate_result.apply(lambda x: not x)\n'), ''),
 ('C17', 'bug', 'ticdatfactory', ('                                if not _ is True:\n', '                                if _ and not _ is True:\n'), 'empty message'),
 ('C17', 'bug', 'ticdatfactory', ('                    for pk  in _table:\n                        full_row = self._get_full_row(tic_dat, table, pk)\n                        for field, data_type in type_row.items():\n                            if not data_type', '                    for pk  in _table:\n                        full_row = self._get_full_row(tic_dat, table, pk)\n                        for field, data_type in type_row.items():\n                            if field in rtn_values and not data_type'), ''),
 ('C17', 'bug', 'ticdatfactory', ('full_row = dict(getattr(ticdat, table)[pk])\n', 'full_row = {f: v for f, v in getattr(ticdat, table)[pk].items() if v is not None}\n'), ''),
 ('C17', 'bug', 'pandatfactory', ('                        if _safe_any(where_bad_rows):\n                            rtn[TPN(tbl, pn)] = _table[where_bad_rows].copy() if as_table else where_bad_rows\n', '                        if _safe_any(where_bad_rows):\n                            rtn[TPN(tbl, pn)] = _table[where_bad_rows].drop_duplicates() if as_table else where_bad_rows\n'), ''),
 ('C17', 'ok', 'ticdatfactory', ('                    for pk  in _table:\n                        full_row = self._get_full_row(tic_dat, table, pk)\n                        for field, data_type in type_row.items():\n                            if not data_type.valid_data(full_row[field]) :\n                                rtn_values[(table, field)].add(full_row[field])\n                                rtn_pks[(table, field)].add(pk)\n                                if inc_failures_trips_end():\n                                    return\n                elif containerish(_table):\n                    for pk, data_row in enumerate(_table):\n                        for field, data_type in type_row.items():\n                            if not data_type.valid_data(data_row[field]) :\n                                rtn_values[(table, field)].add(data_row[field])\n                                rtn_pks[(table, field)].add(pk)\n                                if inc_failures_trips_end():\n                                    return\n', '                    rows = ((pk, self._get_full_row(tic_dat, table, pk)) for pk in _table)\n                elif containerish(_table):\n                    rows = enumerate(_table)\n                else:\n                    rows = ()\n                for pk, row in rows:\n                    for field, data_type in type_row.items():\n                        value = row[field]\n                        if data_type.valid_data(value):\n                            continue\n                        rtn_values[(table, field)].add(value)\n                        rtn_pks[(table, field)].add(pk)\n                        if inc_failures_trips_end():\n                            return\n'), 'one loop'),
 ('C17', 'ok', 'ticdatfactory', ('                        foreign_look_into = get_table_data(fk.foreign_table, ffs)\n                        if foreign_look_up not in foreign_look_into:\n                            rtn_pks[fk].add(native_pk)\n                            if type(fk.mapping) is ForeignKeyMapping :\n                                rtn_values[fk].add(getcell_(native_pk, native_data_row,\n                                                            fk.mapping.native_field))\n                            else:\n                                rtn_values[fk].add(tuple(getcell_(native_pk,\n                                                    native_data_row, _.native_field) for _ in fk.mapping))\n                            if inc_failures_trips_end():\n                                return\n', '                        if foreign_look_up in get_table_data(fk.foreign_table, ffs):\n                            continue\n                        rtn_pks[fk].add(native_pk)\n                        if type(fk.mapping) is ForeignKeyMapping :\n                            bad = getcell_(native_pk, native_data_row, fk.mapping.native_field)\n                        else:\n                            bad = tuple(getcell_(native_pk, native_data_row, _.native_field) for _ in fk.mapping)\n                        rtn_values[fk].add(bad)\n                        if inc_failures_trips_end():\n                            return\n'), 'continue'),

 ('C14', 'bug', 'ticdatfactory', ('            elif td and td.datetime:', '            elif td and td.datetime and not td.nullable:'), ''),
 ('C14', 'bug', 'ticdatfactory', ('and v[data_field] == "" and not td.valid_data(v[data_field]):', 'and v[data_field] == "":'), 'empty text lost where allowed'),
 ('C14', 'bug', 'ticdatfactory', ('            if td and td.nullable and', '            if td and'), ''),
 ('C14', 'bug', 'ticdatfactory', ('                if td and not td.number_allowed:', '                if td and td.strings_allowed:'), ''),
 ('C14', 'bug', 'ticdatfactory', ('                if td and not td.number_allowed:', '                if not td or not td.number_allowed:'), ''),
 ('C14', 'bug', 'ticdatfactory', ('dat.parameters[k] = datetime_v if datetime_v is not None else v[data_field]', 'dat.parameters[k] = datetime_v'), ''),
 ('C14', 'bug', 'ticdatfactory', ('dat.parameters[k] = number_v if number_v is not None else v[data_field]', 'dat.parameters[k] = number_v or v[data_field]'), 'zero stays text'),
 ('C14', 'bug', 'ticdatfactory', ('for k, v in list(dat.parameters.items()):\n            td', 'for k, v in list(dat.parameters.items()):\n            if k not in self.parameters: continue\n            td'), 'undeclared'),
 ('C14', 'bug', 'ticdatfactory', ('dat.parameters[k] = number_v if number_v is not None else v[data_field]\n', 'dat.parameters[k] = number_v if number_v is not None else v[data_field]\n                    if number_v is None: return dat\n'), 'early return'),
 ('C14', 'bug', 'ticdatfactory', ('        if not self.parameters:\n            return dat\n        data_field', '        if not self.parameters or len(self.parameters) != len(dat.parameters):\n            return dat\n        data_field'), ''),
 ('C14', 'bug', 'ticdatfactory', ('                    number_v = utils.safe_apply(float)(v[data_field])', '                    number_v = utils.safe_apply(int)(v[data_field])'), 'fractions stay text'),
 ('C14', 'ok', 'ticdatfactory', ('        for k, v in list(dat.parameters.items()):\n            td = getattr(self.parameters.get(k, None), "type_dictionary", None)\n            if td and td.nullable and v[data_field] == "" and not td.valid_data(v[data_field]):\n                dat.parameters[k] = None\n            elif td and td.datetime:\n                datetime_v = utils.dateutil_adjuster(v[data_field])\n                dat.parameters[k] = datetime_v if datetime_v is not None else v[data_field]\n            else:\n                number_allowed = True\n                if td and not td.number_allowed:\n                    number_allowed = False\n                if number_allowed:\n                    number_v = utils.safe_apply(float)(v[data_field])\n                    if number_v is not None and utils.safe_apply(int)(number_v) == number_v:\n                        number_v = int(number_v)\n                    dat.parameters[k] = number_v if number_v is not None else v[data_field]\n        return dat\n', '        def typed(td, value):\n            if td and td.nullable and value == "" and not td.valid_data(value):\n                return None\n            if td and td.datetime:\n                rtn = utils.dateutil_adjuster(value)\n                return value if rtn is None else rtn\n            if td and not td.number_allowed:\n                return value\n            try:\n                number = float(value)\n            except (ValueError, TypeError):\n                return value\n            return int(number) if utils.safe_apply(int)(number) == number else number\n        for k, v in list(dat.parameters.items()):\n            info = self.parameters.get(k)\n            dat.parameters[k] = typed(info.type_dictionary if info else None, v[data_field])\n        return dat\n'), 'helper'),
 ('C14', 'ok', 'ticdatfactory', ('        for k, v in list(dat.parameters.items()):\n            td = getattr(self.parameters.get(k, None), "type_dictionary", None)\n            if td and td.nullable and v[data_field] == "" and not td.valid_data(v[data_field]):\n                dat.parameters[k] = None\n            elif td and td.datetime:\n                datetime_v = utils.dateutil_adjuster(v[data_field])\n                dat.parameters[k] = datetime_v if datetime_v is not None else v[data_field]\n            else:\n                number_allowed = True\n                if td and not td.number_allowed:\n                    number_allowed = False\n                if number_allowed:\n                    number_v = utils.safe_apply(float)(v[data_field])\n                    if number_v is not None and utils.safe_apply(int)(number_v) == number_v:\n                        number_v = int(number_v)\n                    dat.parameters[k] = number_v if number_v is not None else v[data_field]\n        return dat\n', '        adjusted = {}\n        for k, v in dat.parameters.items():\n            value = v[data_field]\n            td = self.parameters[k].type_dictionary if k in self.parameters else None\n            if td is not None and td.nullable and value == "" and not td.valid_data(value):\n                adjusted[k] = None\n            elif td is not None and td.datetime:\n                datetime_v = utils.dateutil_adjuster(value)\n                adjusted[k] = value if datetime_v is None else datetime_v\n            elif td is None or td.number_allowed:\n                number_v = utils.safe_apply(float)(value)\n                if number_v is None:\n                    adjusted[k] = value\n                else:\n                    adjusted[k] = int(number_v) if utils.safe_apply(int)(number_v) == number_v else number_v\n        for k, value in adjusted.items():\n            dat.parameters[k] = value\n        return dat\n'), 'two passes'),
 ('C14', 'ok', 'ticdatfactory', ('        for k, v in list(dat.parameters.items()):\n            td = getattr(self.parameters.get(k, None), "type_dictionary", None)\n            if td and td.nullable and v[data_field] == "" and not td.valid_data(v[data_field]):\n                dat.parameters[k] = None\n            elif td and td.datetime:\n                datetime_v = utils.dateutil_adjuster(v[data_field])\n                dat.parameters[k] = datetime_v if datetime_v is not None else v[data_field]\n            else:\n                number_allowed = True\n                if td and not td.number_allowed:\n                    number_allowed = False\n                if number_allowed:\n                    number_v = utils.safe_apply(float)(v[data_field])\n                    if number_v is not None and utils.safe_apply(int)(number_v) == number_v:\n                        number_v = int(number_v)\n                    dat.parameters[k] = number_v if number_v is not None else v[data_field]\n        return dat\n', '        for k in list(dat.parameters):\n            value = dat.parameters[k][data_field]\n            td = getattr(self.parameters.get(k, None), "type_dictionary", None)\n            new_value = value\n            if td and td.nullable and value == "" and not td.valid_data(value):\n                new_value = None\n            elif td and td.datetime:\n                datetime_v = utils.dateutil_adjuster(value)\n                if datetime_v is not None:\n                    new_value = datetime_v\n            elif not td or td.number_allowed:\n                number_v = utils.safe_apply(float)(value)\n                if number_v is not None:\n                    new_value = int(number_v) if utils.safe_apply(int)(number_v) == number_v else number_v\n            dat.parameters[k] = new_value\n        return dat\n'), 'new_value'),

 ('C08', 'bug', 'ticdatfactory', ('            rtn = rtn and  self.good_tic_dat_table(getattr(data_obj, t), t,\n                    lambda x : bad_message_handler(t + " : " + x), row_checking)\n        return rtn', '            rtn = self.good_tic_dat_table(getattr(data_obj, t), t,\n                    lambda x : bad_message_handler(t + " : " + x), row_checking)\n        return rtn'), 'last only'),
 ('C08', 'bug', 'ticdatfactory', ('            rtn = rtn and  self.good_tic_dat_table(getattr(data_obj, t), t,\n                    lambda x : bad_message_handler(t + " : " + x), row_checking)\n        return rtn', '            rtn = rtn or self.good_tic_dat_table(getattr(data_obj, t), t,\n                    lambda x : bad_message_handler(t + " : " + x), row_checking)\n        return rtn'), 'or'),
 ('C08', 'bug', 'ticdatfactory', ('            rtn = rtn and  self.good_tic_dat_table(getattr(data_obj, t), t,\n                    lambda x : bad_message_handler(t + " : " + x), row_checking)\n        return rtn', '            return self.good_tic_dat_table(getattr(data_obj, t), t,\n                    lambda x : bad_message_handler(t + " : " + x), row_checking)\n        return rtn'), 'first only'),
 ('C08', 'bug', 'ticdatfactory', ('            rtn = rtn and  self.good_tic_dat_table(getattr(data_obj, t), t,\n                    lambda x : bad_message_handler(t + " : " + x), row_checking)\n        return rtn', '            rtn = rtn and  self.good_tic_dat_table(getattr(data_obj, t), t,\n                    lambda x : bad_message_handler(t + " : " + x))\n        return rtn'), 'generous'),
 ('C08', 'bug', 'ticdatfactory', ('        if not all(_keylen(k) == len(self.primary_key_fields[table_name])\n', '        if not any(_keylen(k) == len(self.primary_key_fields[table_name])\n'), 'any keylen'),
 ('C08', 'bug', 'ticdatfactory', ('            if not all(set(x.keys()) == set(self.data_fields.get(table_name, ())) for x in dictishrows):', '            if not all(set(x.keys()).issubset(self.data_fields.get(table_name, ())) for x in dictishrows):'), 'subset'),
 ('C08', 'bug', 'ticdatfactory', ('            if containerishrows or singletonishrows:', '            if containerishrows and singletonishrows:'), 'and'),
 ('C08', 'bug', 'ticdatfactory', ('            if row_checking == "strict" and  not utils.dictish(data_table):', '            if row_checking == "strict" and  not utils.containerish(data_table):'), 'not dict'),
 ('C08', 'bug', 'ticdatfactory', ('        if not all(_keylen(k) == len(self.primary_key_fields[table_name])\n                   for k in ticdat_table.keys()) :', '        if not _keylen(next(iter(ticdat_table))) == len(self.primary_key_fields[table_name]) :'), 'first key only'),
 ('C08', 'bug', 'ticdatfactory', ('            return self._good_data_rows(data_table if containerish(data_table) else data_table(),\n                                      table_name, bad_message_handler, row_checking)', '            return not containerish(data_table) or self._good_data_rows(data_table,\n                                      table_name, bad_message_handler, row_checking)'), 'generators unchecked'),
 ('C08', 'bug', 'ticdatfactory', ('                if not isinstance(getattr(data_obj, t), DataFrame) and t in self.generic_tables:\n                    bad_message_handler(t + " is a generic table, but not a DataFrame")\n                    return False\n', '                if t in self.generic_tables:\n                    continue\n'), 'generic unchecked'),
 ('C08', 'ok', 'pandatfactory', ('                bad_message_handler(t + " not an attribute.")\n                return False\n            if not isinstance(getattr(data_obj, t), DataFrame):', '                bad_message_handler(t + " not an attribute.")\n                continue\n            if not isinstance(getattr(data_obj, t), DataFrame):'), 'continue'),
 ('C08', 'bug', 'pandatfactory', ('                          self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ())\n                          if f not in getattr(data_obj, t).columns}\n        if missing_fields:\n            bad_message_handler("The following are (table', '                          self.primary_key_fields.get(t, ()) or self.data_fields.get(t, ())\n                          if f not in getattr(data_obj, t).columns}\n        if missing_fields:\n            bad_message_handler("The following are (table'), 'or'),
 ('C08', 'bug', 'pandatfactory', ('        if missing_fields:\n            bad_message_handler("The following are (table, field) pairs missing from the data.\\n%s"%missing_fields)\n            return False\n        return True\n    def copy_pan_dat', '        if len(missing_fields) > 1:\n            bad_message_handler("The following are (table, field) pairs missing from the data.\\n%s"%missing_fields)\n            return False\n        return True\n    def copy_pan_dat'), 'len>1'),
 ('C08', 'ok', 'ticdatfactory', ('            rtn = rtn and  self.good_tic_dat_table(getattr(data_obj, t), t,\n                    lambda x : bad_message_handler(t + " : " + x), row_checking)\n        return rtn', '            if not self.good_tic_dat_table(getattr(data_obj, t), t,\n                    lambda x : bad_message_handler(t + " : " + x), row_checking):\n                rtn = False\n        return rtn'), 'ok1'),
 ('C08', 'ok', 'ticdatfactory', [('            rtn = rtn and  self.good_tic_dat_table(getattr(data_obj, t), t,\n                    lambda x : bad_message_handler(t + " : " + x), row_checking)\n        return rtn', '        problems = [t for t in self.all_tables if not self.good_tic_dat_table(getattr(data_obj, t), t,\n                    lambda x : bad_message_handler(t + " : " + x), row_checking)]\n        return not problems')], 'ok2'),
 ('C08', 'ok', 'ticdatfactory', [('            rtn = rtn and  self.good_tic_dat_table(getattr(data_obj, t), t,\n                    lambda x : bad_message_handler(t + " : " + x), row_checking)\n        return rtn', '        return all([self.good_tic_dat_table(getattr(data_obj, t), t,\n                    lambda x : bad_message_handler(t + " : " + x), row_checking) for t in self.all_tables])')], 'ok3'),
 ('C08', 'ok', 'ticdatfactory', [('        dictishrows, containerishrows, singletonishrows = [], [], []\n        for x in data_rows:\n            if utils.dictish(x):\n                dictishrows.append(x)\n            elif utils.containerish(x):\n                containerishrows.append(x)\n            else:\n                singletonishrows.append(x)\n', '        rows = list(data_rows)\n        dictishrows = [x for x in rows if utils.dictish(x)]\n        others = [x for x in rows if not utils.dictish(x)]\n        containerishrows = [x for x in others if utils.containerish(x)]\n        singletonishrows = [x for x in others if not utils.containerish(x)]\n')], 'ok4'),
 ('C08', 'ok', 'ticdatfactory', [('            if not all(set(x.keys()) == set(self.data_fields.get(table_name, ())) for x in dictishrows):', '            fields = set(self.data_fields.get(table_name, ()))\n            if any(fields.symmetric_difference(x) for x in dictishrows):')], 'ok5'),
 ('C08', 'ok', 'ticdatfactory', [('        if not all(_keylen(k) == len(self.primary_key_fields[table_name])\n                   for k in ticdat_table.keys()) :\n            bad_msg_handler("Inconsistent key lengths")\n            return False\n', '        n = len(self.primary_key_fields[table_name])\n        for k in ticdat_table:\n            if _keylen(k) != n:\n                bad_msg_handler("Inconsistent key lengths")\n                return False\n')], 'ok6'),
 ('C08', 'ok', 'pandatfactory', [('        missing_fields = {(t, f) for t in self.all_tables for f in\n                          self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ())\n                          if f not in getattr(data_obj, t).columns}\n        if missing_fields:\n            bad_message_handler("The following are (table', '        missing_fields = set()\n        for t in self.all_tables:\n            columns = set(getattr(data_obj, t).columns)\n            fields = self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ())\n            missing_fields.update((t, f) for f in fields if f not in columns)\n        if len(missing_fields) > 0:\n            bad_message_handler("The following are (table')], 'ok7'),
 ('C08', 'ok', 'pandatfactory', [('        missing_fields = {(t, f) for t in self.all_tables for f in\n                          self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ())\n                          if f not in getattr(data_obj, t).columns}\n        if missing_fields:\n            bad_message_handler("The following are (table', '        missing_fields = self._absent(data_obj)\n        if missing_fields:\n            bad_message_handler("The following are (table'), ('    def good_pan_dat_object(', '    def _absent(self, obj):\n        rtn = set()\n        for t in self.all_tables:\n            for f in set(self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ())).difference(getattr(obj, t).columns):\n                rtn.add((t, f))\n        return rtn\n    def good_pan_dat_object(')], 'ok8'),
 ('C08', 'bug', 'csvtd', ('        if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :', '        if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m), row_checking="generous") :'), 'generous writer'),

 ('C07', 'ok', 'sqlitetd', [('            for t in self.tic_dat_factory.all_tables:\n                verify(table_names.get(t) == t, "Failed to find table %s in path %s"%\n                                            (t, db_file_path))\n                verify(allow_overwrite or not any(True for _ in  con.execute("Select * from [%s]"%t)),\n                        "allow_overwrite is False, but there are already data records in %s"%t)\n                con.execute("Delete from [%s]"%t) if allow_overwrite else None\n', '            for t in self.tic_dat_factory.all_tables:\n                verify(table_names.get(t) == t, "Failed to find table %s in path %s"%\n                                            (t, db_file_path))\n                if allow_overwrite:\n                    con.execute("Delete from [%s]"%t)\n                else:\n                    existing = list(con.execute("Select * from [%s]"%t))\n                    verify(not existing, "allow_overwrite is False, but there are already data records in %s"%t)\n')], 'sqlite write_db two loops'),
 ('C21', 'ok', 'ticdatfactory', [('        for (table, field), (vals, pks) in replacements_needed.items() :\n            if (table, field) in real_replacements:\n                for pk in pks:\n                    getattr(tic_dat, table)[pk][field] = real_replacements[table, field]\n', '        for tf, failures in replacements_needed.items() :\n            if tf not in real_replacements:\n                continue\n            rows, new_value = getattr(tic_dat, tf.table), real_replacements[tf]\n            for pk in failures.pks:\n                rows[pk][tf.field] = new_value\n')], 'replace tic'),
 ('C08', 'ok', 'ticdatfactory', [('        dictishrows, containerishrows, singletonishrows = [], [], []\n        for x in data_rows:\n            if utils.dictish(x):\n                dictishrows.append(x)\n            elif utils.containerish(x):\n                containerishrows.append(x)\n            else:\n                singletonishrows.append(x)\n', '        by_kind = {"dict": [], "container": [], "single": []}\n        for x in data_rows:\n            kind = "dict" if utils.dictish(x) else "container" if utils.containerish(x) else "single"\n            by_kind[kind].append(x)\n        dictishrows, containerishrows, singletonishrows = by_kind["dict"], by_kind["container"], by_kind["single"]\n')], 'good table verdict'),
 ('C08', 'ok', 'csvtd', [('        if not allow_overwrite:\n            for t in tdf.all_tables :\n                f = file_path(t)\n                verify(not os.path.exists(f), "The %s path exists and overwrite is not allowed"%f)\n        if not os.path.isdir(dir_path) :\n            os.mkdir(dir_path)\n        for t in tdf.all_tables :\n            with open(file_path(t), \'w\', newline=\'\') as csvfile:', '        paths = {t: file_path(t) for t in tdf.all_tables}\n        if not allow_overwrite:\n            for f in paths.values():\n                verify(not os.path.exists(f), "The %s path exists and overwrite is not allowed"%f)\n        if not os.path.isdir(dir_path) :\n            os.mkdir(dir_path)\n        for t, path in paths.items() :\n            with open(path, \'w\', newline=\'\') as csvfile:')], 'csv paths first'),

 ('C09', 'bug', 'xls', [('sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cell))\n        book.close()', 'sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[-field_ind], cell))\n        book.close()')], 'neg'),
 ('C09', 'bug', 'xls', [('sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cell))\n        book.close()', 'sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind-1], cell))\n        book.close()')], 'off by one'),
 ('C09', 'bug', 'xls', [('sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cell))\n        book.close()', 'sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[row_ind], cell))\n        book.close()')], 'row index'),
 ('C09', 'bug', 'xls', [('sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cell))\n        book.close()', 'sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[min(field_ind, 2)], cell))\n        book.close()')], 'min'),
 ('C09', 'ok', 'xls', [('for field_ind, cell in enumerate(tuple(data[_f] for _f in tdf.data_fields[t])) :\n                        sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cell))\n        book.close()', 'for field_ind, cell in enumerate(tuple(data[_f] for _f in tdf.data_fields[t]), 1) :\n                        sheet.write(row_ind+1, field_ind-1, clean_for_write(t, all_flds[field_ind-1], cell))\n        book.close()')], 'from one'),
 ('C09', 'ok', 'xls', [('for field_ind, cell in enumerate(tuple(data[_f] for _f in tdf.data_fields[t])) :\n                        sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cell))\n        book.close()', 'cells = tuple(data[_f] for _f in tdf.data_fields[t])\n                    for field_ind in range(len(cells)) :\n                        sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cells[field_ind]))\n        book.close()')], 'range'),

 ('C17', 'bug', 'pandatfactory', ('duplicated(list(self.primary_key_fields[t]), keep=keep)\n                if _safe_any', 'dropna(subset=list(self.primary_key_fields[t])).duplicated(list(self.primary_key_fields[t]), keep=keep)\n                if _safe_any'), 'dups dropna'),
 ('C15', 'bug', 'utils', ('    if (table, field) in tdf_pdf.tooltips:\n        rtn.set_tooltip(table, new_field, tdf_pdf.tooltips[table, field])', '    if tdf_pdf.tooltips.get((table, new_field)):\n        rtn.set_tooltip(table, new_field, tdf_pdf.tooltips[table, field])'), 'rename tooltip wrong key'),
 ('C15', 'bug', 'utils', ('            field_renaming = lambda _t, _f: new_field if (_t, _f) == (table, field) else _f\n', '            field_renaming = lambda _t, _f: new_field if _f == field else _f\n'), "rename fk of other table's same-named field"),
 ('C15', 'bug', 'utils', ('        if needs_renaming(fk.mapping):\n            rtn.add', '        if needs_renaming(fk.mapping) and fk.native_table == table:\n            rtn.add'), 'rename fk native only'),
 ('C15', 'bug', 'ticdatfactory', ('                for pn, rpi in row_predicates.items():\n                    if not (rpi.predicate_kwargs_maker and no_copy_predicate_kwargs_maker):\n                        rtn.add', '                for pn, rpi in row_predicates.items():\n                    if not (rpi.predicate_kwargs_maker and (no_copy_predicate_kwargs_maker or table_restrictions)):\n                        rtn.add'), 'restricted clone drops kwargs makers'),
 ('C15', 'bug', 'ticdatfactory', ('            rtn._convert_dat[:] = self._convert_dat[:]\n        return rtn\n    def clone_add_a_table', '            rtn._convert_dat[:] = self._convert_dat[:1]\n        return rtn\n    def clone_add_a_table'), 'converter without its names'),
 ('C21', 'bug', 'pandatfactory', ('                if ((table, field) in replacement_values) or (field in self.default_values.get(table, {})):\n                    real_replacements[table, field] = replacement_values[table, field] \\\n                        if (table, field) in replacement_values else self.default_values[table][field]', '                if ((table, field) in replacement_values) or (field in self.default_values.get(table, {})):\n                    real_replacements[table, field] = self.default_values[table][field] \\\n                        if field in self.default_values.get(table, {}) else replacement_values[table, field]'), 'default beats given'),
 ('C21', 'ok', 'pandatfactory', ('                    return not data_type.valid_data(None if isnull(data) else data)\n                getattr(pan_dat, table)[field] =', '                    return not data_type.valid_data(data)\n                getattr(pan_dat, table)[field] ='), 'nan not turned to none in replace'),
 ('C11', 'bug', 'pandatfactory', ('            return float("inf") if x >= self.infinity_io_flag else \\\n                (-float("inf") if x <= -self.infinity_io_flag else x)\n        for t in', '            return float("inf") if x >= self.infinity_io_flag else \\\n                (-float("inf") if x < -self.infinity_io_flag else x)\n        for t in'), 'strict neg'),
 ('C11', 'bug', 'pandatfactory', ('                        if utils.numericish(row[f]) and abs(row[f]) >= self.infinity_io_flag:\n                            fields_w_issues.add(f)', '                        if utils.numericish(row[f]) and row[f] >= self.infinity_io_flag:\n                            fields_w_issues.add(f)'), 'only positives trigger'),
 ('C11', 'bug', 'pandatfactory', ('                utils.faster_df_apply(df, find_fields_w_issues)\n', '                utils.faster_df_apply(df.head(1000), find_fields_w_issues)\n'), 'only first 1000 rows looked at'),
 ('C11', 'bug', 'pandatfactory', ('            for f in all_fields: # before the infinity flag, which applies to numbers\n                dt = self.data_types.get(t, {}).get(f, None)\n                if dt and not dt.datetime and dt', '            for f in self._all_fields(t)[1:]:\n                dt = self.data_types.get(t, {}).get(f, None)\n                if dt and not dt.datetime and dt'), "first field's texts not numbers"),
 ('C10', 'bug', 'xls', ('            return self.tic_dat_factory._general_read_cell(table, field, rtn)', '            return self.tic_dat_factory._general_read_cell(table, field, rtn) if not field.lower().startswith("_") else rtn'), 'private columns unread'),
 ('C10', 'bug', 'csvtd', ('        return self.tic_dat_factory._general_read_cell(table, field, _inner_rtn(x))', '        cell = _inner_rtn(x)\n        return cell if cell == x else self.tic_dat_factory._general_read_cell(table, field, cell)'), 'csv cells kept when unchanged'),
 ('C10', 'bug', 'sqlitetd', ('                    data = [self._read_data_cell(table, f, x) for f, x in zip(fields[len(pkfs):], row[len(pkfs):])]\n                    if dict', '                    data = [self._read_data_cell(table, f, x) for f, x in zip(fields[len(pkfs):], row[len(pkfs):])] \\\n                        if pkfs else list(row)\n                    if dict'), 'sqlite keyless raw'),
 ('C09', 'bug', 'xls', ('            if self.tic_dat_factory.infinity_io_flag != "N/A" or \\\n               (t == "parameters" and self.tic_dat_factory.parameters):\n                x =', '            if utils.numericish(self.tic_dat_factory.infinity_io_flag) or \\\n               (t == "parameters" and self.tic_dat_factory.parameters):\n                x ='), 'None flag skipped in xlsx'),
 ('C09', 'bug', 'xls', ('                for row_ind, data in enumerate(_t if containerish(_t) else _t()) :\n                    for field_ind, cell in enumerate(tuple(data[_f] for _f in tdf.data_fields[t])) :\n                        sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cell))\n        book.close()', '                for row_ind, data in enumerate(_t if containerish(_t) else _t()) :\n                    for field_ind, cell in enumerate(tuple(data[_f] for _f in tdf.data_fields[t])) :\n                        sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[-field_ind], cell))\n        book.close()'), 'wrong field'),
 ('C09', 'bug', 'pgtd', ('                              tuple(self._write_data_cell(t, f, x) for f,x in sqldatarow.items())', '                              tuple(self._write_data_cell(t, f, x) for f,x in zip(primarykeys, sqldatarow.values()))'), 'pg wrong field names (and truncates)'),
 ('C28', 'bug', 'pandatio', ('                con.execute("Select * from [%s]"%name)\n            except :\n                return False', '                con.execute("Select * from [%s]"%name)\n            except :\n                con.rollback()\n                return False'), "rollback on caller's connection"),
 ('C28', 'bug', 'pandatio', ('            verify(os.path.exists(db_file_path) and not os.path.isdir(db_file_path),\n                   "%s not a file path"%db_file_path)\n        rtn = {}\n        con_maker', '            verify(not os.path.isdir(db_file_path),\n                   "%s not a file path"%db_file_path)\n        rtn = {}\n        con_maker'), 'missing db file made'),
 ('C05', 'bug', 'pandatio', ('        pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        if db_file_path:\n            verify(not os.path.isdir(', '        if db_file_path or self.pan_dat_factory.infinity_io_flag != "N/A":\n            pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)\n        for t in self.pan_dat_factory.all_tables:\n            getattr(pan_dat, t).reset_index(drop=True, inplace=True)\n        if db_file_path:\n            verify(not os.path.isdir('), "reset index in place on caller's"),
 ('C18', 'bug', 'pandatio', ('                rtn[t] = pd.read_sql(sql="Select * from [%s]"%s, con=con_)', '                rtn[t] = pd.read_sql(sql="Select * from %s"%s, con=con_)'), 'unbracketed'),
 ('C07', 'bug', 'sqlitetd', ('verify(not os.path.isdir(db_file_path), "A directory is not a valid SQLite file path")\n        if self.tic_dat_factory.generic_tables:\n             dat, tdf = create_generic_free(tic_dat, self.tic_dat_factory)\n             return tdf.sql.write_db_data(dat, db_file_path, allow_overwrite)', 'verify(not os.path.isdir(db_file_path), "A directory is not a valid SQLite file path")\n        if self.tic_dat_factory.generic_tables:\n             dat, tdf = create_generic_free(tic_dat, self.tic_dat_factory)\n             return tdf.sql.write_db_data(dat, db_file_path, allow_overwrite=bool(self.tic_dat_factory.generic_tables))'), 'generic overwrites'),
 ('C04', 'bug', 'utils', ('    def setdefault(self, *args, **kwargs) :\n        if not getattr(self, "_dataFrozen", False) :', '    def setdefault(self, *args, **kwargs) :\n        if not getattr(self, "_dataFrozen", False) or (len(args) == 1 and args[0] not in self):'), 'setdefault of one arg'),
 ('C04', 'bug', 'utils', ('            if not getattr(self, freezeAttr, False):\n                return super(_Freezeable, self).__delattr__(item)', '            if not getattr(self, freezeAttr, False) or item.startswith("_"):\n                return super(_Freezeable, self).__delattr__(item)'), 'del of private attributes: the freeze mark'),
 ('C03', 'bug', 'utils', ('        return FrozenDict({deep_freeze(k) : deep_freeze(v) for k,v in x.items()})', '        if isinstance(x, FreezeableDict) and getattr(x, "_attributesFrozen", False):\n            return x\n        return FrozenDict({deep_freeze(k) : deep_freeze(v) for k,v in x.items()})'), 'attributes-frozen dict handed through'),
 ('C16', 'bug', 'ticdatfactory', ('                        if exception_handling == "Unhandled":\n                            _p = lambda row: rpi.predicate(row, **predicate_kwargs)', '                        if exception_handling == "Unhandled" and not predicate_kwargs:\n                            _p = lambda row: rpi.predicate(row, **predicate_kwargs)'), 'unhandled not with kwargs'),
 ('C16', 'bug', 'ticdatfactory', ('                        if uses_convert and not converted_dat:\n                            if exception_handling == "Handled as Failure":\n                                try:\n                                    converted_dat.append(self._convert_dat[0](tic_dat))\n                                except Exception as e:', '                        if uses_convert and not converted_dat:\n                            if exception_handling == "Handled as Failure":\n                                try:\n                                    converted_dat.append(self._convert_dat[0](tic_dat))\n                                except (TypeError, ValueError, KeyError, IndexError, AttributeError) as e:'), 'narrow'),
 ('C23', 'bug', 'ticdatfactory', ('                        maker_key = (rpi.predicate_kwargs_maker, bool(uses_convert))', '                        maker_key = (getattr(rpi.predicate_kwargs_maker, "__qualname__", rpi.predicate_kwargs_maker), bool(uses_convert))'), 'key by qualname'),
]
