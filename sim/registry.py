import importlib

WHERE = {'B01': 's_batch', 'B02': 's_batch', 'B03': 's_batch', 'B04': 's_batch', 'B05': 's_batch',
         'C01': 's_state', 'C02': 's_state', 'C03': 's_state',
         'S01': 's_file', 'S03': 's_file', 'S04': 's_file', 'S05': 's_file', 'S06': 's_file', 'S07': 's_file',
         'S08': 's_file',
         'B06': 's_misc', 'B07': 's_misc', 'T01': 's_misc', 'N01': 's_misc', 'P01': 's_misc', 'P02': 's_report', 'P03': 's_cag', 'D01': 's_env', 'V01': 's_plot', 'P04': 's_show'}


def get(prop):
    return getattr(importlib.import_module(WHERE[prop]), prop)()
