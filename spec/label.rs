fn table(name: &str) -> Label {
    match name {
        "car" | "vehicle.car" | "vehicle.construction" | "vehicle.emergency (ambulance & police)" | "vehicle.police" | "vehicle.fire" | "vehicle.ambulance" => Label::Car,
        "truck" | "vehicle.truck" | "trailer" | "vehicle.trailer" => Label::Truck,
        "bus" | "vehicle.bus" | "vehicle.bus (bendy & rigid)" | "vehicle.bus.rigid" | "vehicle.bus.bendy" => Label::Bus,
        "bicycle" | "vehicle.bicycle" => Label::Bicycle,
        "motorbike" | "vehicle.motorcycle" => Label::Motorbike,
        "pedestrian" | "pedestrian.adult" | "pedestrian.child" | "pedestrian.construction_worker" | "pedestrian.personal_mobility"
        | "pedestrian.police_officer" | "pedestrian.stroller" | "pedestrian.wheelchair" | "human.pedestrian.adult" | "human.pedestrian.child"
        | "human.pedestrian.construction_worker" | "human.pedestrian.personal_mobility" | "human.pedestrian.police_officer"
        | "human.pedestrian.stroller" | "human.pedestrian.wheelchair" => Label::Pedestrian,
        "animal" => Label::Animal,
        _ => Label::Unknown,
    }
}
/// converting with the converter made for `prefix`
pub fn convert_with(prefix: &str, name: &str) -> LabelResult<Label> {
    if prefix == "autoware" { Ok(table(&name.to_lowercase())) } else { Err(LabelError::ValueError(prefix.to_string())) }
}
pub fn impl_convert_with(prefix: &str, name: &str) -> LabelResult<Label> {
    Ok(LabelConverter::new(prefix)?.convert(name))
}
pub fn convert_labels(names: &Vec<&str>, c: &LabelConverter) -> LabelResult<Vec<Label>> { Ok(names.iter().map(|n| c.convert(n)).collect()) }
