//! The parts of yewprint that the pages use.
use yew::html::IntoPropValue;
use yew::prelude::*;
use yew::Look;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intent {
    Primary,
    Success,
    Warning,
    Danger,
}
/// Icons are not looked at.
#[derive(Clone, Debug, PartialEq)]
pub struct Icon;
#[allow(non_upper_case_globals)]
impl Icon {
    pub const FolderClose: Icon = Icon;
    pub const FolderOpen: Icon = Icon;
    pub const Document: Icon = Icon;
    pub const Tick: Icon = Icon;
    pub const Error: Icon = Icon;
}

macro_rules! simple {
    ($name:ident $props:ident |$p:ident| $view:expr) => {
        pub struct $name;
        impl Component for $name {
            type Message = ();
            type Properties = $props;
            fn create(_: &Context<Self>) -> Self {
                $name
            }
            fn view(&self, ctx: &Context<Self>) -> Html {
                let $p = ctx.props();
                $view
            }
        }
    };
}
fn elem(t: &'static str, look: Look, c: Html) -> Html {
    Html::Elem(t, look, Box::new(c))
}

#[derive(PartialEq, Properties)]
pub struct ButtonProps {
    #[prop_or_default]
    pub fill: bool,
    #[prop_or_default]
    pub minimal: bool,
    #[prop_or_default]
    pub small: bool,
    #[prop_or_default]
    pub outlined: bool,
    #[prop_or_default]
    pub loading: bool,
    #[prop_or_default]
    pub large: bool,
    #[prop_or_default]
    pub active: bool,
    #[prop_or_default]
    pub disabled: bool,
    #[prop_or_default]
    pub icon: Option<Icon>,
    #[prop_or_default]
    pub intent: Option<Intent>,
    #[prop_or_default]
    pub title: Option<String>,
    #[prop_or_default]
    pub onclick: Callback<MouseEvent>,
    #[prop_or_default]
    pub children: Children,
}
simple!(Button ButtonProps |p| {
    let look = Look { disabled: p.disabled || p.loading, onclick: p.onclick.clone(), ..Default::default() };
    elem("button", look, p.children.clone())
});

#[derive(PartialEq, Properties)]
pub struct ButtonGroupProps {
    #[prop_or_default]
    pub vertical: bool,
    #[prop_or_default]
    pub minimal: bool,
    #[prop_or_default]
    pub large: bool,
    #[prop_or_default]
    pub fill: bool,
    #[prop_or_default]
    pub children: Children,
}
simple!(ButtonGroup ButtonGroupProps |p| p.children.clone());

#[derive(PartialEq, Properties)]
pub struct CalloutProps {
    #[prop_or_default]
    pub without_icon: bool,
    #[prop_or_default]
    pub icon: Option<Icon>,
    #[prop_or_default]
    pub intent: Option<Intent>,
    #[prop_or_default]
    pub title: Option<String>,
    pub children: Children,
}
simple!(Callout CalloutProps |p| {
    let look = Look { intent: p.intent.map_or(String::new(), |i| format!("{:?}", i)), ..Default::default() };
    let title = p.title.clone().map_or(Html::Nothing, |t| Html::Text(t));
    elem("callout", look, Html::List(vec![title, p.children.clone()]))
});

#[derive(PartialEq, Properties)]
pub struct TextProps {
    #[prop_or_default]
    pub children: Children,
}
simple!(H1 TextProps |p| p.children.clone());
simple!(H2 TextProps |p| p.children.clone());
simple!(H3 TextProps |p| p.children.clone());
simple!(H4 TextProps |p| p.children.clone());
simple!(H5 TextProps |p| p.children.clone());
simple!(H6 TextProps |p| p.children.clone());
simple!(Text TextProps |p| p.children.clone());

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct RatioOrPercentage(f64);
#[derive(PartialEq, Properties)]
pub struct ProgressBarProps {
    #[prop_or_default]
    pub animate: bool,
    #[prop_or_default]
    pub stripes: bool,
    #[prop_or(RatioOrPercentage(1.0))]
    pub value: RatioOrPercentage,
    #[prop_or_default]
    pub intent: Option<Intent>,
}
macro_rules! ratio {
    ($d:expr, $($t:ty)*) => {$(impl IntoPropValue<RatioOrPercentage> for $t {
        fn into_prop_value(self) -> RatioOrPercentage {
            RatioOrPercentage(self as f64 / $d)
        }
    })*};
}
ratio!(1.0, f32 f64);
ratio!(100.0, u8 u16 u32 i8 i16 i32);
simple!(ProgressBar ProgressBarProps |p| elem("bar", Look { value: p.value.0, ..Default::default() }, Html::Nothing));
