import importlib

MODULES = {
    'C01': 'binary_delivery', 'C02': 'text_delivery', 'C03': 'text_flush', 'C04': 'truncation', 'C05': 'skipping', 'C06': 'symbol_context',
    'C07': 'event_stability', 'C08': 'isolation', 'C09': 'writer_flush', 'C10': 'output_faults', 'C11': 'input_faults', 'C12': 'corruption',
    'C13': 'misuse', 'C14': 'interruption', 'C15': 'catalog', 'C16': 'symbol_tables', 'C17': 'end_to_end', 'C18': 'endurance', 'C19': 'environment',
}


def get(pid):
    mod = importlib.import_module('sim.props.' + MODULES[pid])
    return mod.PROPERTIES[pid]
