from . import structural, witness, wrappers, run, gobind

PROPS = {
    'C08': structural.c08,
    'C21': structural.c21,
    'C22': witness.c22,
    'C23': wrappers.c23,
    'C24': gobind.c24,
}
for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C10', 'C18', 'C07', 'C09', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C19', 'C20', 'C06'): PROPS[_p] = run.prop_check(_p)
