PROPS = {
    'C01': {'modules': ['occupy']},
    'C02': {'modules': ['occupy']},
    'C24': {'modules': ['occupy']},
    'C25': {'modules': ['occupy']},
    'C28': {'modules': ['occupy']},
    'C03': {'modules': ['geo']},
    'C04': {'modules': ['geo']},
    'C05': {'modules': ['geo']},
    'C06': {'modules': ['geo']},
    'C27': {'modules': ['geo']},
}
for _p in ('C07', 'C08', 'C10'):
    PROPS[_p] = {'modules': ['phys']}
for _p in ('C09', 'C15', 'C16', 'C17'):
    PROPS[_p] = {'modules': ['seqs']}
for _p in ('C13', 'C14', 'C21', 'C26'):
    PROPS[_p] = {'modules': ['grids']}
for _p in ('C11', 'C12'):
    PROPS[_p] = {'modules': ['files']}
for _p in ('C18', 'C19', 'C22', 'C23'):
    PROPS[_p] = {'modules': ['misc']}
PROPS['C20'] = {'modules': ['apps']}

from . import notes as _notes
for _p in PROPS:
    PROPS[_p]['assumptions'] = _notes.NOTES.get(_p, {}).get('assume', [])
