//@ module report_manager
/// What is known about a match ID: SINGLEMATCH, first expression.
#[no_mangle]
pub fn vh_x_known(rm: &ReportManager, id: ReportId) -> Option<(bool, u32)> { rm.external_id_map.get(&id).map(|e| (e.highlander, e.first_pattern_index)) }
/// Match IDs known, reports, keys.
#[no_mangle]
pub fn vh_x_counts(rm: &ReportManager) -> (usize, usize, usize) { (rm.external_id_map.len(), rm.report_ids.len(), rm.to_exhaustible_key_map.len()) }
