CHECKS = {}
def case(entry, reach=('end',), **k):
    return dict(entry=entry, reach=list(reach), **k)
CHECKS['C01'] = dict(harness='h_store.cc', cases=[case('store_once', ['queried']), case('store_history', ['queried']),
   case('store_before_setup', ['queried']), case('store_mesh', ['queried'])])
CHECKS['C02'] = dict(harness='h_aggr.cc', cases=[case('aggr_sums'), case('aggr_weighted'), case('aggr_normal'), case('aggr_hull'), case('aggr_none'), case('aggr_none_normal')])
CHECKS['C03'] = dict(harness='h_layout.cc', cases=[case('layout_any'), case('layout_resize'), case('layout_mirror')])
CHECKS['C04'] = dict(harness='h_shape.cc', cases=[case('shape_radius'), case('shape_monotone'), case('shape_slope'), case('shape_angle'), case('shape_real_degrees'), case('shape_domain', ['refused', 'accepted'])])
CHECKS['C05'] = dict(harness='h_flat.cc', cases=[case('flat_geometric', ['hit', 'miss']), case('flat_when', ['hit', 'miss']), case('flat_segment', ['hit', 'miss']),
   case('flat_monotone', ['both', 'one']), case('flat_representation', ['hit', 'miss'])])
HM = ['hit', 'miss']
CHECKS['C06'] = dict(harness='h_sampling.cc', cases=[case('sampling_flat', HM), case('sampling_volume', HM), case('sampling_flat_when', HM), case('sampling_highest', HM), case('sampling_agrees', HM),
   case('sampling_edge', HM), case('sampling_empty', ['miss'])])
CHECKS['C07'] = dict(harness='h_mesh.cc', cases=[case('mesh_single', ['hit']), case('mesh_wrap', ['hit']), case('mesh_agrees', ['hit']), case('mesh_miss', ['miss']),
   case('mesh_layers', ['hit']), case('mesh_radial')])

CHECKS['C08'] = dict(harness='h_shell.cc', cases=[case('shell_history'), case('shell_ribs'), case('shell_path', HM)])
CHECKS['C09'] = dict(harness='h_shell.cc', cases=[case('prune_y', HM), case('prune_x', HM), case('prune_z', HM), case('prune_lanes', ['hit']), case('prune_wide', HM), case('box_encloses')])
CHECKS['C10'] = dict(harness='h_tree.cc', cases=[case('tree_pairs', HM), case('tree_query', HM), case('box_pair', HM), case('box_merged'), case('box_distance'), case('tree_closest'), case('box_common'), case('box_shared', HM), case('box_points'), case('tree_shift', HM), case('tree_again', HM), case('tree_pairs_large', HM, tier='thorough')])
CHECKS['C11'] = dict(harness='h_frame.cc', cases=[case('frame_pose', ['end', 'hit']), case('frame_ground'), case('frame_lists'), case('euler_pose'), case('euler_relative')])
CHECKS['C12'] = dict(harness='h_ground.cc', cases=[case('facet'), case('facet_box'), case('plane_ground')])
RA = ['refused', 'accepted']
CHECKS['C13'] = dict(harness='h_ground.cc', cases=[case('refuse_values', RA), case('refuse_methods', RA)])
CHECKS['C14'] = dict(harness='h_ground.cc', cases=[case('copy_shape'), case('copy_rib'), case('copy_ground'), case('copy_mesh'), case('mesh_empty')])
CHECKS['C15'] = dict(harness='h_load.cc', cases=[case('load_file'), case('load_index', RA), case('load_refuse', RA), case('load_blocks'), case('load_again')])
CHECKS['C16'] = dict(harness='h_sfun.cc', extra_units=['sfun/src_sfun/enve_sfun_interface.cc'], cases=[case('sfun_bus'), case('sfun_parameters'), case('sfun_refuse', RA)])
CHECKS['C17'] = dict(harness='h_prim.cc', cases=[case('prim_plane', HM), case('prim_triangle', HM), case('prim_parallel')])
CHECKS['C18'] = dict(harness='h_round.cc', cases=[case('round_disk', HM), case('round_ball', HM), case('round_through', HM), case('round_plane_ball', HM), case('round_plane_disk', HM)])
CHECKS['C19'] = dict(harness='h_pair.cc', cases=[case('pair_cross', HM), case('pair_overlap', HM), case('pair_apart')])
CHECKS['C20'] = dict(harness='h_cut.cc', cases=[case('cut_planes'), case('cut_parallel', ['apart', 'same']), case('cut_point'), case('cut_triangle', HM), case('cut_triangle_disk', HM), case('cut_two_disks', HM),
   case('cut_two_triangles', HM), case('cut_coplanar', HM), case('cut_two_triangles_turned', HM, tier='thorough')])
IO = ['in', 'out']
CHECKS['C21'] = dict(harness='h_inside.cc', cases=[case('inside_straight', IO), case('inside_plane', IO), case('inside_triangle', IO), case('inside_round', IO), case('inside_point', IO)])
CHECKS['C22'] = dict(harness='h_measure.cc', cases=[case('measure_segment'), case('measure_boxes'), case('measure_round_boxes'), case('measure_disk_box'), case('measure_triangle'), case('measure_degenerate'), case('measure_round')])
CHECKS['C23'] = dict(harness='h_motion.cc', cases=[case('motion_entity'), case('motion_collection'), case('motion_reverse')])
YN = ['yes', 'no']
CHECKS['C24'] = dict(harness='h_relation.cc', cases=[case('relation_straight', YN), case('relation_mixed', YN), case('relation_flat', YN), case('relation_place', YN), case('relation_vector')])
SN = ['some', 'none']
CHECKS['C25'] = dict(harness='h_entity.cc', cases=[case('entity_collinear', SN), case('entity_coplanar', SN + ['refused']), case('entity_general', SN + ['refused']), case('entity_flat', SN), case('entity_point', SN)])
CHECKS['C26'] = dict(harness='h_collection.cc', cases=[case('collection_kinds'), case('collection_degenerated', SN), case('collection_boxes', ['end', 'refused']), case('collection_candidates', SN), case('collection_rebuild'), case('collection_pairwise')])
CHECKS['C27'] = dict(harness='h_pose.cc', cases=[case('pose_moves'), case('pose_mesh'), case('pose_surface', ['in', 'out']), case('pose_check', YN)])
CHECKS['C28'] = dict(harness='h_approx.cc', cases=[case('approx_pieces', YN), case('approx_other', ['no']), case('approx_number', YN)])
CHECKS['C29'] = dict(harness='h_form.cc', cases=[case('form_straight'), case('form_plane'), case('form_round'), case('form_segment'), case('form_triangle'), case('form_index', RA), case('form_box')])
