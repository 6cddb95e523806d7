"""Which groups decide which property."""
GROUPS_OF = {
    'C01': ['grp_step'], 'C02': ['grp_step'], 'C03': ['grp_step', 'grp_kernel', 'grp_multi', 'grp_sharp'], 'C04': ['grp_step'],
    'C05': ['grp_ctrl'], 'C06': ['grp_ctrl', 'grp_copy'], 'C07': ['grp_ctrl', 'grp_step'],
    'C08': ['grp_ghost'],
    'C09': ['grp_kernel'], 'C10': ['grp_multi'], 'C22': ['grp_kernel'], 'C12': ['grp_mol'], 'C13': ['grp_mol'], 'C14': ['grp_sharp'], 'C11': ['grp_cons'], 'C20': ['grp_hist'], 'C15': ['grp_store'], 'C16': ['grp_store'],
    'C17': ['grp_obs'], 'C18': ['grp_geom'], 'C19': ['grp_config'], 'C21': ['grp_gauge'], 'C23': ['grp_app'], 'C24': ['grp_app'], 'C25': ['grp_build'],
}
LEVELS = {}
ASSUME = {}
NOTE = {
    '*': 'TLC checks the specification exhaustively within the stated bounds and judges every recorded execution of the real '
         'code (generated from behaviours of the specification plus seeded random inputs) event by event; bounded by the '
         'sizes and the number of scenarios in the evidence file. Trusts TLC, the recorders and the installed Riemann solvers.',
}
