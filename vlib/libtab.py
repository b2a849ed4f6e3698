"""Reference layout of the VITA 49.2 structures, written from the field tables of the standard
(as quoted in the library's documentation), not from the implementation's code.
A field is (name, first bit counted from the start of the structure's image, width, kind, arg)."""
def W(word, hi, n):           # bit `hi` of 32-bit word `word`, n bits going down
    return word * 32 + 31 - hi, n
def L(hi, n):                 # bit `hi` of a 64-bit structure
    return 63 - hi, n
def b(name, word, hi): return (name, *W(word, hi, 1), 'b', None)
def u(name, word, hi, n): return (name, *W(word, hi, n), 'u', None)
def e(name, word, hi, n, t): return (name, *W(word, hi, n), 'e', t)
def fx(name, word, hi, n, r): return (name, *W(word, hi, n), 'fx', r)
def lu(name, hi, n): return (name, *L(hi, n), 'u', None)
def word(name, w): return (name, w * 32, 32, 'u', None)
def sword(name, w): return (name, w * 32, 32, 's', None)
def dword(name, w): return (name, w * 32, 64, 'u', None)
def fx32(name, w, r): return (name, w * 32, 32, 'fx', r)
def fx64(name, w, r): return (name, w * 32, 64, 'fx', r)
def bits32(names_hi, w=0): return [b(n, w, hi) for n, hi in names_hi]
def seq(names, hi): return [(n, hi - i) for i, n in enumerate(names)]

HDR = [e('packet_type', 0, 31, 4, 'PacketType'), b('class_id_enable', 0, 27), e('tsi', 0, 23, 2, 'TSI'), e('tsf', 0, 21, 2, 'TSF'),
       u('packet_count', 0, 19, 4), u('packet_size', 0, 15, 16)]
CAM = [b('controllee_enable', 0, 31), e('controllee_format', 0, 30, 1, 'IdentifierFormat'), b('controller_enable', 0, 29), e('controller_format', 0, 28, 1, 'IdentifierFormat'),
       b('permit_partial', 0, 27), b('permit_warnings', 0, 26), b('permit_errors', 0, 25), e('action_mode', 0, 24, 2, 'ActionMode'), b('nack_only', 0, 22),
       e('timing_control', 0, 14, 3, 'TimestampControlMode')]
IND0 = seq('''change_indicator reference_point_id bandwidth if_ref_frequency rf_ref_frequency rf_ref_frequency_offset if_band_offset reference_level gain
 over_range_count sample_rate timestamp_adjustment timestamp_calibration_time temperature device_id state_event_indicators signal_data_format formatted_gps
 formatted_ins ecef_ephemeris relative_ephemeris ephemeris_ref_id gps_ascii context_association_lists'''.split(), 31)
IND1 = seq('''phase_offset polarization pointing_vector pointing_vector_structure spatial_scan_type spatial_reference_type beam_width range'''.split(), 31) + \
    seq('''ebno_ber threshold compression_point intercept_points snr_noise_figure aux_frequency aux_gain aux_bandwidth'''.split(), 20) + \
    seq('''array_of_cifs spectrum sector_step_scan index_list discrete_io_32 discrete_io_64 health_status v49_spec_compliance version_information buffer_size'''.split(), 11 - 0)
IND1 = [(n, h) for n, h in IND1 if n != 'array_of_cifs'] + [('array_of_cifs', 11)]
IND1 = [(n, {'range': 24, 'beam_width': 25, 'spectrum': 10, 'sector_step_scan': 9, 'index_list': 7, 'discrete_io_32': 6, 'discrete_io_64': 5, 'health_status': 4,
             'v49_spec_compliance': 3, 'version_information': 2, 'buffer_size': 1}.get(n, h)) for n, h in IND1]
IND2 = seq('''bind cited_sid sibling_sid parent_sid child_sid cited_message_id controllee_id controllee_uuid controller_id controller_uuid information_source track_id
 country_code operator_id platform_class platform_instance platform_display ems_device_class ems_device_type ems_device_instance modulation_class modulation_type
 function_id mode_id event_id function_priority_id communication_priority_id rf_footprint rf_footprint_range'''.split(), 31)
IND3 = [('timestamp_details', 31), ('timestamp_skew', 30), ('rise_time', 27), ('fall_time', 26), ('offset_time', 25), ('pulse_width', 24), ('period', 23), ('duration', 22), ('dwell', 21),
        ('jitter', 20), ('age', 17), ('shelf_life', 16), ('air_temperature', 7), ('sea_ground_temperature', 6), ('humidity', 5), ('barometric_pressure', 4), ('sea_swell_state', 3),
        ('tropospheric_state', 2), ('network_id', 1)]
IND7 = seq('current_value mean_value median_value standard_deviation max_value min_value precision accuracy first_derivative second_derivative third_derivative probability belief'.split(), 31)
WEF = seq('''field_not_executed device_failure erroneous_field parameter_out_of_range parameter_unsupported_precision field_value_invalid timestamp_problem
 hazardous_power_levels distortion in_band_power_compliance out_of_band_power_compliance cosite_interference regional_interference'''.split(), 31)
SSC = seq('''sector_number f1_start_frequency f2_stop_frequency resolution_bandwidth tune_step_size number_points default_gain threshold dwell_time start_time time_3 time_4'''.split(), 31)
GEO_P = [e('tsi', 0, 27, 2, 'TSI'), e('tsf', 0, 25, 2, 'TSF'), u('manufacturer_oui', 0, 23, 24), word('integer_timestamp', 1), dword('fractional_timestamp', 2)]
def pair(a, c, r): return [fx(a, 0, 31, 16, r), fx(c, 0, 15, 16, r)]

def cifen(p): return [(p + '7_enable', 7), (p + '3_enable', 3), (p + '2_enable', 2), (p + '1_enable', 1)]
# class name -> (bytes, fields)
CLASSES = {
    'Header': (4, HDR),
    'DataHeader': (4, HDR + [b('trailer_included', 0, 26), b('not_v49d0', 0, 25), e('spectrum_or_time', 0, 24, 1, 'SPECTRUM_OR_TIME')]),
    'ContextHeader': (4, HDR + [b('not_v49d0', 0, 25), e('tsm', 0, 24, 1, 'TSM')]),
    'CommandHeader': (4, HDR + [b('acknowledge_packet', 0, 26), b('cancellation_packet', 0, 24)]),
    'ClassIdentifier': (8, [lu('pad_bits', 63, 5), lu('oui', 55, 24), lu('information_code', 31, 16), lu('packet_code', 15, 16)]),
    'ControlAcknowledgeMode': (4, CAM),
    'ControlCAM': (4, CAM + [b('req_v', 0, 20), b('req_x', 0, 19), b('req_s', 0, 18), b('req_w', 0, 17), b('req_er', 0, 16)]),
    'AcknowledgeCAM': (4, CAM + [b('ack_v', 0, 20), b('ack_x', 0, 19), b('ack_s', 0, 18), b('ack_w', 0, 17), b('ack_er', 0, 16), b('partial_action', 0, 11), b('scheduled_or_executed', 0, 10)]),
    'WarningErrorFields': (4, bits32(WEF)),
    'CIF0': (4, bits32(IND0 + cifen('cif'))), 'CIF1': (4, bits32(IND1)), 'CIF2': (4, bits32(IND2)),
    'WIF0': (4, bits32(IND0 + cifen('wif'))), 'EIF0': (4, bits32(IND0 + cifen('eif'))),
    'WEIF1': (4, bits32(IND1)), 'WEIF2': (4, bits32(IND2)), 'WEIF3': (4, bits32(IND3)), 'WEIF7': (4, bits32(IND7)),
    'SectorStepScanCIF': (4, bits32(SSC)),
    'Gain': (4, pair('stage_2', 'stage_1', 7)),
    'difi::ReferenceLevel': (4, pair('scaling_level', 'reference_level', 7)),
    'DeviceIdentifier': (8, [lu('manufacturer_oui', 55, 24), lu('device_code', 15, 16)]),
    'PayloadFormat': (8, [('packing_method', *L(63, 1), 'e', 'PackingMethod'), ('real_complex_type', *L(62, 2), 'e', 'DataSampleType'), ('data_item_format', *L(60, 5), 'e', 'DataItemFormat'),
                          ('repeat_indicator', *L(55, 1), 'b', None), lu('event_tag_size', 54, 3), lu('channel_tag_size', 51, 4), lu('data_item_fraction_size', 47, 4),
                          ('item_packing_field_size', *L(43, 6), 'm1', None), ('data_item_size', *L(37, 6), 'm1', None), ('repeat_count', *L(31, 16), 'm1', None), ('vector_size', *L(15, 16), 'm1', None)]),
    'Geolocation': (44, GEO_P + [fx32('latitude', 4, 22), fx32('longitude', 5, 22), fx32('altitude', 6, 5), fx32('speed_over_ground', 7, 16), fx32('heading_angle', 8, 22),
                                 fx32('track_angle', 9, 22), fx32('magnetic_variation', 10, 22)]),
    'Ephemeris': (52, GEO_P + [fx32('position_x', 4, 5), fx32('position_y', 5, 5), fx32('position_z', 6, 5), fx32('attitude_alpha', 7, 22), fx32('attitude_beta', 8, 22),
                               fx32('attitude_phi', 9, 22), fx32('velocity_dx', 10, 16), fx32('velocity_dy', 11, 16), fx32('velocity_dz', 12, 16)]),
    'Polarization': (4, pair('tilt_angle', 'ellipticity_angle', 13)),
    'PointingVector': (4, [fx('elevation_angle', 0, 31, 16, 7), ('azimuthal_angle', *W(0, 15, 16), 'ufx', 7)]),
    'BeamWidth': (4, pair('horizontal', 'vertical', 7)),
    'EbNoBER': (4, pair('ebno', 'ber', 7)),
    'Threshold': (4, pair('stage_2', 'stage_1', 7)),
    'InterceptPoints': (4, pair('second_order', 'third_order', 7)),
    'SNRNoise': (4, pair('snr', 'noise', 7)),
    'Spectrum': (52, [e('spectrum_type', 0, 7, 8, 'SpectrumType'), e('averaging_type', 0, 15, 8, 'AveragingType'), e('window_time', 0, 19, 4, 'WindowTimeDelta'), e('window_type', 1, 7, 8, 'WindowType'),
                      word('num_transform_points', 2), word('num_window_points', 3), fx64('resolution', 4, 20), fx64('span', 6, 20), word('num_averages', 8), word('weighting_factor', 9),
                      sword('f1_index', 10), sword('f2_index', 11), word('window_time_delta', 12)]),
    'VersionInformation': (4, [u('year', 0, 31, 7), u('day', 0, 24, 9), u('revision', 0, 15, 6), u('user_defined', 0, 9, 10)]),
    'Belief': (4, [('belief_percent', *W(0, 7, 8), 'u', None)]),
    'Probability': (4, [u('probability_function', 0, 15, 8), u('probability_percent', 0, 7, 8)]),
    'CIF7': (4, bits32(IND7)),
    'difi::BufferSize': (12, [dword('buffer_size', 0), u('level', 2, 15, 12), b('overflow', 2, 3), b('nearly_full', 2, 2), b('nearly_empty', 2, 1), b('underflow', 2, 0)]),
}
FIXED = [c for c, (s, fs) in CLASSES.items() if any(f[3] in ('fx', 'ufx') for f in fs)]
# structures whose documented initial value is not all zero: class -> byte image
DEFAULTS = {
    'Geolocation': [0] * 4 + [0xff] * 12 + [0x7f, 0xff, 0xff, 0xff] * 7,
    'Ephemeris': [0] * 4 + [0xff] * 12 + [0x7f, 0xff, 0xff, 0xff] * 9,
    'EbNoBER': [0x7f, 0xff, 0x7f, 0xff], 'SNRNoise': [0x7f, 0xff, 0, 0],
}
