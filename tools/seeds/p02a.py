PROP = "C02"
EDITS = [("pandatfactory", '''        td = None
        if enforce_type_rules:
            td = TypeDictionary.safe_creator(number_allowed, inclusive_min, inclusive_max,
                                             min, max, must_be_int, strings_allowed, nullable, datetime)
            verify(td.valid_data(default_value), f"{default_value} is not a legal default value for parameter {name}")
        ParameterInfo = clt.namedtuple("ParameterInfo", ["type_dictionary", "default_value"])
        self._parameters[name] = ParameterInfo(td, default_value)
''', '''        ParameterInfo = clt.namedtuple("ParameterInfo", ["type_dictionary", "default_value"])
        td = None
        self._parameters[name] = ParameterInfo(td, default_value)
        if enforce_type_rules:
            td = TypeDictionary.safe_creator(number_allowed, inclusive_min, inclusive_max,
                                             min, max, must_be_int, strings_allowed, nullable, datetime)
            verify(td.valid_data(default_value), f"{default_value} is not a legal default value for parameter {name}")
            self._parameters[name] = ParameterInfo(td, default_value)
''')]
DEMO = '''
from ticdat import PanDatFactory
pdf = PanDatFactory(parameters=[["k"], ["v"]])
pdf.add_parameter("p", 1, max=10, inclusive_max=True)
before = pdf.parameters
try:
    pdf.add_parameter("p", "not a number")
    raised = False
except Exception:
    raised = True
assert raised
assert pdf.parameters["p"].default_value == 1 and pdf.parameters["p"].type_dictionary is not None, pdf.parameters
'''
NEEDS = "a rejected add_parameter call (default value illegal for the type rules)"
BREAKS = "the rejected parameter replaces the earlier one (or is added), with no type rules"
