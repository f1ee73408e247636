//! Stand-in for yewprint.
use implicit_clone::{unsync::IArray, ImplicitClone};
use yew::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intent {
    Primary,
    Success,
    Warning,
    Danger,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Icon {
    FolderClose,
    Document,
}
macro_rules! container {
    ($name:ident, $props:ident, |$p:ident| $e:expr, { $($f:ident: $t:ty),* }) => {
        #[derive(Properties, PartialEq)]
        pub struct $props {
            $(#[prop_or_default] pub $f: $t,)*
            #[prop_or_default]
            pub class: Classes,
            #[prop_or_default]
            pub children: Children,
        }
        pub struct $name;
        impl Component for $name {
            type Message = ();
            type Properties = $props;
            fn create(_: &Context<Self>) -> Self {
                $name
            }
            fn view(&self, ctx: &Context<Self>) -> Html {
                let $p = ctx.props();
                $e
            }
        }
    };
}
fn plain(c: &Children) -> Html {
    Html::List(c.0.clone())
}
container!(Callout, CalloutProps, |p| {
    let mut v: Vec<Html> = p.title.iter().map(|t| Html::Text(t.clone())).collect();
    v.push(plain(&p.children));
    Html::Callout(p.intent.map(|i| format!("{i:?}")), v)
}, { title: Option<String>, icon: Option<Icon>, intent: Option<Intent> });
container!(H1, H1Props, |p| plain(&p.children), {});
container!(H2, H2Props, |p| plain(&p.children), {});
container!(H3, H3Props, |p| plain(&p.children), {});
container!(H4, H4Props, |p| plain(&p.children), {});
container!(H5, H5Props, |p| plain(&p.children), {});
container!(ButtonGroup, ButtonGroupProps, |p| plain(&p.children), { minimal: bool, vertical: bool, fill: bool });
container!(Button, ButtonProps, |p| Html::Element {
    tag: "button",
    onclick: Some(p.onclick.clone()),
    disabled: p.disabled,
    children: p.children.0.clone(),
}, { minimal: bool, fill: bool, disabled: bool, loading: bool, icon: Option<Icon>, intent: Option<Intent>, onclick: Callback<MouseEvent> });
container!(Switch, SwitchProps, |p| Html::Element {
    tag: "button",
    onclick: Some(p.onclick.clone()),
    disabled: p.disabled,
    children: vec![p.label.clone()],
}, { label: Html, align_right: bool, checked: bool, disabled: bool, onclick: Callback<MouseEvent> });
container!(ProgressBar, ProgressBarProps, |p| Html::Progress(p.value.map_or(-1, |n| n as i64)), {
    value: Option<u32>, animate: bool, stripes: bool, intent: Option<Intent>
});

#[derive(Clone, PartialEq)]
pub struct Tab<T> {
    pub disabled: bool,
    pub id: T,
    pub title: Html,
    pub panel: Html,
    pub panel_class: Classes,
    pub title_class: Classes,
}
impl<T: Clone> ImplicitClone for Tab<T> {}
#[derive(Properties, PartialEq)]
pub struct TabsProps<T: Clone + PartialEq + ImplicitClone + 'static> {
    pub id: String,
    #[prop_or_default]
    pub animate: bool,
    #[prop_or_default]
    pub vertical: bool,
    pub selected_tab_id: T,
    #[prop_or_default]
    pub onchange: Callback<T>,
    pub tabs: IArray<Tab<T>>,
}
pub struct Tabs<T>(std::marker::PhantomData<T>);
impl<T: Clone + PartialEq + ImplicitClone + 'static> Component for Tabs<T> {
    type Message = ();
    type Properties = TabsProps<T>;
    fn create(_: &Context<Self>) -> Self {
        Tabs(std::marker::PhantomData)
    }
    fn view(&self, ctx: &Context<Self>) -> Html {
        let p = ctx.props();
        let titles = p
            .tabs
            .iter()
            .map(|t| {
                let (cb, id) = (p.onchange.clone(), t.id.clone());
                Html::Element {
                    tag: "tab",
                    onclick: Some(Callback::from(move |_| cb.emit(id.clone()))),
                    disabled: t.disabled,
                    children: vec![t.title.clone()],
                }
            })
            .collect();
        let panels = p
            .tabs
            .iter()
            .map(|t| if t.id == p.selected_tab_id { t.panel.clone() } else { Html::Hidden(Box::new(t.panel.clone())) })
            .collect();
        Html::List(vec![Html::List(titles), Html::List(panels)])
    }
}
