PROP = "C10"
EDITS = [("jsontd", '''            pdf = PanDatFactory.create_from_full_schema(self.tic_dat_factory.schema(include_ancillary_info=True))
            _rtn = pdf.json.create_pan_dat(json_file_path)
            return''', '''            pdf = PanDatFactory(**self.tic_dat_factory.schema())
            for t, fs in self.tic_dat_factory.data_types.items():
                for f, dt in fs.items():
                    pdf.set_data_type(t, f, *dt)
            for p, v in self.tic_dat_factory.parameters.items():
                pdf.add_parameter(p, v.default_value, **(v.type_dictionary._asdict() if v.type_dictionary else
                                                         {"enforce_type_rules": False}))
            _rtn = pdf.json.create_pan_dat(json_file_path)
            return''')]
DEMO = '''
import os
from ticdat import TicDatFactory
tdf = TicDatFactory(a=[["k"], ["v"]])
tdf.set_infinity_io_flag(999)
p = os.path.join(os.environ["DEMO_TMP"], "x.json")
tdf.json.write_file(tdf.TicDat(a={1: float("inf")}), p, to_pandas=True)
got = tdf.json.create_tic_dat(p, from_pandas=True)
assert got.a[1]["v"] == float("inf"), got.a
'''
NEEDS = "a json file in the pandas layout and an infinity flag"
BREAKS = "reading json through pandas uses a factory that has lost the infinity flag"
