"""The documented arguments of the prepare functions: argument -> kind of value.

str / int (number or array of integers) / float / num (real or complex) / cplx (float or complex array) /
('in', codes) / list32 / None (anything)."""


def R(a, b):
    return ('in', tuple(range(a, b + 1)))


IDS = {'id%d' % i: 'str' for i in range(1, 6)}
UN = {a + '_%s_unit_exp' % u: 'int' for a in ('abscissa', 'ordinate', 'orddenom', 'z_axis') for u in ('len', 'force', 'temp')}

PREP = {
    15: dict(node_nums='ints', def_cs='int', disp_cs='int', color='int', x='float', y='float', z='float'),
    18: dict(cs_num=None, cs_type=None, ref_cs_num=None, color=None, method=None, cs_name=None, ref_o=None, x_point=None,
             xz_point=None),
    55: dict(IDS, model_type=R(0, 3), analysis_type=('in', (2, 3, 5, 7)), data_ch=R(0, 5), spec_data_type=R(0, 18),
             data_type=('in', (2, 5)), n_data_per_node='int', r1='num', r2='num', r3='num', r4='num', r5='num', r6='num',
             load_case='int1', mode_n='int1', freq='float', modal_m=None, modal_damp_vis='float1', modal_damp_his='float1',
             eig='num', modal_a='num', modal_b='num', freq_step_n='int1', node_nums='int'),
    58: dict(IDS, **UN, binary=R(0, 1), func_type=R(0, 27), ver_num='int', load_case_id='int', rsp_ent_name='str',
             rsp_node='int', rsp_dir=R(-6, 6), ref_ent_name='str', ref_node='int', ref_dir=R(-6, 6),
             ord_data_type=('in', (2, 4, 5, 6)), num_pts='int', abscissa_spacing=R(0, 1), abscissa_min='float',
             abscissa_inc='float', z_axis_value='float', abscissa_spec_data_type=R(0, 20), ordinate_spec_data_type=R(0, 20),
             orddenom_spec_data_type=R(0, 20), z_axis_spec_data_type=R(0, 20), abscissa_axis_units_lab='str',
             ordinate_axis_units_lab='str', orddenom_axis_units_lab='str', z_axis_axis_units_lab='str', data='cplx',
             x=None, spec_data_type=None, byte_ordering=None, fp_format=None, n_ascii_lines=None, n_bytes=None),
    82: dict(trace_num='int', n_nodes='int', color='int', id='str', nodes='int'),
    151: dict(model_name='str', description='str', db_app='str', date_db_created='str', time_db_created='str',
              version_db1='int', version_db2='int', file_type=R(0, 2), date_db_saved='str', time_db_saved='str',
              program='str', date_db_written='str', time_db_written='str'),
    164: dict(units_code=R(0, 9), units_description='str', temp_mode=R(1, 2), length='float1', force='float1', temp='float1',
              temp_offset='float1'),
    1858: dict({k: 'int' for k in (
        'record_num', 'octave_format', 'measurement_run', 'weighting_type', 'window_type', 'amplitude_units',
        'normalization_method', 'abscissa_data_type_qualifier', 'ordinate_numerator_data_type_qualifier',
        'ordinate_denominator_data_type_qualifier', 'z_axis_data_type_qualifier', 'sampling_type')},
        **{k: 'float' for k in ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples', 'user_value_1',
                                'user_value_2', 'user_value_3', 'user_value_4', 'exponential_window_damping_factor')},
        response_direction='str', reference_direction='str'),
    2400: dict(model_uid='int', entity_type='int', entity_subtype='int', version_number='int', entity_name='str',
               part_number='str', status_mask='list32', date='str', time='str', idm_version_id='int', idm_item_id='int',
               primary_parent_uid='int', optimization_switches='int'),
    2411: dict(node_nums='int', def_cs='int', disp_cs='int', color='int', x='float', y='float', z='float'),
    2412: {k: 'int' for k in ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes', 'nodes_nums',
                              'beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross')},
    2414: dict(IDS, analysis_dataset_label='int', analysis_dataset_name='str', dataset_location=('in', (1, 2, 3, 5)),
               model_type=R(0, 3), analysis_type=('in', (0, 1, 2, 3, 4, 5, 6, 7, 9)),
               data_characteristic=('in', (0, 1, 2, 3, 4, 6)), result_type='int1', data_type=('in', (1, 2, 4, 5, 6)),
               number_of_data_values_for_the_data_component='int',
               **{k: 'int' for k in ('design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set',
                                     'mode_number', 'time_step_number', 'frequency_number', 'creation_option',
                                     'number_retained', 'node_nums')},
               **{k: 'float' for k in ('time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping',
                                       'hysteretic_damping', 'real_part_eigenvalue', 'imaginary_part_eigenvalue',
                                       'real_part_of_modal_A_or_modal_mass', 'imaginary_part_of_modal_A_or_modal_mass',
                                       'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass', 'd')},
               x='cplx', y='cplx', z='cplx'),
    2420: dict(Part_UID='int', Part_Name='str', CS_sys_labels='int', CS_types='codes3', CS_colors='int', CS_names='strs',
               CS_matrices='float'),
}
ACT = ('active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
       'active_dof_set_no_for_group', 'active_temperature_set_no_for_group', 'active_contact_set_no_for_group')
GROUP = dict(group_number='nat1', group_name='name', entity_type_code='int!', entity_tag='int!', **{k: 'nat1' for k in ACT})
