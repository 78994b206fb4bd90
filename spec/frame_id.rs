pub fn from_str(s: &str) -> FrameIdResult<FrameID> {
    if s == "BaseLink" || s == "base_link" { return Ok(FrameID::BaseLink); }
    if s == "Map" || s == "map" { return Ok(FrameID::Map); }
    if s == "CamBack" || s == "cam_back" { return Ok(FrameID::CamBack); }
    if s == "CamBackLeft" || s == "cam_back_left" { return Ok(FrameID::CamBackLeft); }
    if s == "CamBackRight" || s == "cam_back_right" { return Ok(FrameID::CamBackRight); }
    if s == "CamFront" || s == "cam_front" { return Ok(FrameID::CamFront); }
    if s == "CamFrontLeft" || s == "cam_front_left" { return Ok(FrameID::CamFrontLeft); }
    if s == "CamFrontRight" || s == "cam_front_right" { return Ok(FrameID::CamFrontRight); }
    if s == "CamTrafficLightNear" || s == "cam_traffic_light_near" { return Ok(FrameID::CamTrafficLightNear); }
    if s == "CamTrafficLightFar" || s == "cam_traffic_light_far" { return Ok(FrameID::CamTrafficLightFar); }
    Err(FrameIdError::ValueError(s.to_string()))
}
