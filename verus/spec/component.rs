pub use crate::api::component::ComponentKind;
pub use crate::parser::logic::component::Component;
/// Sketchware's number of each component kind
pub open spec fn comp_no(k: ComponentKind) -> u8 {
    match k {
        ComponentKind::Intent => 1, ComponentKind::SharedPreferences { .. } => 2, ComponentKind::Calendar => 3,
        ComponentKind::Vibrator => 4, ComponentKind::Timer => 5, ComponentKind::FirebaseDatabase { .. } => 6,
        ComponentKind::Dialog => 7, ComponentKind::MediaPlayer => 8, ComponentKind::SoundPool => 9,
        ComponentKind::ObjectAnimator => 10, ComponentKind::Gyroscope => 11, ComponentKind::FirebaseAuth => 12,
        ComponentKind::InterstitialAd => 13, ComponentKind::FirebaseStorage { .. } => 14, ComponentKind::Camera => 15,
        ComponentKind::FilePicker { .. } => 16, ComponentKind::RequestNetwork => 17, ComponentKind::TextToSpeech => 18,
        ComponentKind::SpeechToText => 19, ComponentKind::BluetoothConnect => 20, ComponentKind::LocationManager => 21,
    }
}
pub open spec fn takes_param(n: u8) -> bool { n == 2 || n == 6 || n == 14 || n == 16 }
pub open spec fn comp_param(k: ComponentKind) -> Seq<char> {
    match k {
        ComponentKind::SharedPreferences { path } => path@,
        ComponentKind::FirebaseDatabase { path } => path@,
        ComponentKind::FirebaseStorage { path } => path@,
        ComponentKind::FilePicker { mime_type } => mime_type@,
        _ => Seq::empty(),
    }
}
/// the component kind of a record: its number picks the kind, its first parameter is what the kind carries
pub open spec fn comp_of(c: Component) -> Option<ComponentKind> {
    match c.r#type {
        1 => Some(ComponentKind::Intent), 2 => Some(ComponentKind::SharedPreferences { path: c.param1 }), 3 => Some(ComponentKind::Calendar),
        4 => Some(ComponentKind::Vibrator), 5 => Some(ComponentKind::Timer), 6 => Some(ComponentKind::FirebaseDatabase { path: c.param1 }),
        7 => Some(ComponentKind::Dialog), 8 => Some(ComponentKind::MediaPlayer), 9 => Some(ComponentKind::SoundPool),
        10 => Some(ComponentKind::ObjectAnimator), 11 => Some(ComponentKind::Gyroscope), 12 => Some(ComponentKind::FirebaseAuth),
        13 => Some(ComponentKind::InterstitialAd), 14 => Some(ComponentKind::FirebaseStorage { path: c.param1 }), 15 => Some(ComponentKind::Camera),
        16 => Some(ComponentKind::FilePicker { mime_type: c.param1 }), 17 => Some(ComponentKind::RequestNetwork), 18 => Some(ComponentKind::TextToSpeech),
        19 => Some(ComponentKind::SpeechToText), 20 => Some(ComponentKind::BluetoothConnect), 21 => Some(ComponentKind::LocationManager),
        _ => None,
    }
}
