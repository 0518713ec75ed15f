PROPS = {
    'C01': ('p_core', 'check'), 'C02': ('p_core', 'check'), 'C03': ('p_core', 'check'),
    'D01': ('p_dataset', 'check'), 'D02': ('p_dataset', 'check'), 'D03': ('p_dataset', 'check'),
    'D04': ('p_info', 'check'),
}
PROPS.update({'R01': ('p_replay', 'check_fifo'), 'R02': ('p_replay', 'check_fifo'), 'R03': ('p_replay', 'check_seq'),
              'R04': ('p_replay', 'check_prio')})
PROPS.update({'C04': ('p_vector', 'check'), 'C05': ('p_vector', 'check_mp')})
PROPS.update({'T01': ('p_td', 'check_td')})
PROPS.update({'T02': ('p_td', 'check_elig')})
PROPS.update({'P01': ('p_param', 'check')})
PROPS.update({'S01': ('p_serial', 'check')})
PROPS.update({'S02': ('p_resume', 'check')})
PROPS.update({'A01': ('p_dqn', 'check')})
PROPS.update({'A02': ('p_deepac', 'check')})
PROPS.update({'P02': ('p_policy', 'check_explore')})
PROPS.update({'P03': ('p_gauss', 'check')})
PROPS.update({'G01': ('p_onpolicy', 'check')})
PROPS.update({'G02': ('p_polgrad', 'check'), 'O01': ('p_dist', 'check_bbo'), 'O02': ('p_dist', 'check')})
PROPS.update({'B01': ('p_batch', 'check')})
PROPS.update({'E01': ('p_finite', 'check')})
PROPS.update({'E02': ('p_solve', 'check')})
PROPS.update({'E03': ('p_envdyn', 'check')})
PROPS.update({'N01': ('p_stats', 'check')})
PROPS.update({'F01': ('p_feat', 'check')})
PROPS.update({'V01': ('p_approx', 'check')})
PROPS.update({'V02': ('p_torch', 'check')})
PROPS.update({'L01': ('p_log', 'check')})
PROPS.update({'W01': ('p_wrap', 'check')})
PROPS.update({'W02': ('p_phys', 'check')})
PROPS.update({'P04': ('p_mp', 'check')})
PROPS.update({'G03': ('p_bptt', 'check')})
PROPS.update({'W03': ('p_hockey', 'check')})
