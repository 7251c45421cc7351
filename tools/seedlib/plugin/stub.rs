//! Stand-in for swc_core: the parts that need a host are plain values.
pub use real::{common, ecma};
pub mod plugin {
    pub use attr::plugin_transform;
    pub mod metadata {
        #[derive(Clone, Copy, PartialEq)]
        pub enum TransformPluginMetadataContextKind {
            Filename = 1,
            Env,
            Cwd,
        }
    }
    pub mod proxies {
        pub use real::common::comments::SingleThreadedComments as PluginCommentsProxy;
        pub struct TransformPluginProgramMetadata {
            pub comments: Option<real::common::comments::SingleThreadedComments>,
            pub source_map: real::common::SourceMap,
            pub unresolved_mark: real::common::Mark,
            pub config: Option<String>,
            pub filename: Option<String>,
        }
        impl TransformPluginProgramMetadata {
            pub fn get_transform_plugin_config(&self) -> Option<String> {
                self.config.clone()
            }
            pub fn get_context(&self, key: &super::metadata::TransformPluginMetadataContextKind) -> Option<String> {
                match *key {
                    super::metadata::TransformPluginMetadataContextKind::Filename => self.filename.clone(),
                    super::metadata::TransformPluginMetadataContextKind::Env => Some("development".into()),
                    super::metadata::TransformPluginMetadataContextKind::Cwd => Some("/cwd".into()),
                }
            }
            pub fn get_experimental_context(&self, _: &str) -> Option<String> {
                None
            }
        }
    }
}
