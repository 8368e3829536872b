"""property id -> check function (imported on demand)"""
import importlib


def lazy(mod, fn):
    def f():
        return getattr(importlib.import_module(mod), fn)()
    return f


TABLE = {
    'C01': lazy('filters_frames', 'c01'),
    'C02': lazy('filters_frames', 'c02'),
    'C03': lazy('filters_frames', 'c03'),
    'C04': lazy('filters_create', 'c04'),
    'C05': lazy('filters_create', 'c05'),
    'C06': lazy('filters_create', 'c06'),
    'C07': lazy('filters_args', 'c07'),
    'C08': lazy('filters_share', 'c08'),
    'C09': lazy('filters_share', 'c09'),
    'C10': lazy('errors', 'c10'),
    'C12': lazy('core_locks', 'c12'),
    'C13': lazy('core_locks', 'c13'),
    'C14': lazy('core_locks', 'c14'),
    'C15': lazy('core_requests', 'c15'),
    'C16': lazy('core_objects', 'c16'),
    'C17': lazy('core_objects', 'c17'),
    'C18': lazy('core_props', 'c18'),
    'C19': lazy('core_frames', 'c19'),
    'C20': lazy('core_memory', 'c20'),
    'C21': lazy('abi', 'c21'),
    'C22': lazy('python', 'c22'),
    'C23': lazy('python', 'c23'),
    'C24': lazy('python', 'c24'),
    'C25': lazy('python', 'c25'),
    'C26': lazy('pipe_tool', 'c26'),
    'C27': lazy('python', 'c27'),
}
