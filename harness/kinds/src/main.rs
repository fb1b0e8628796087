//! What huff's own main does, and the kind of error it ended with on stderr.
fn main() {
    let yaml = clap::YamlLoader::load_from_str(include_str!("/repo/huff/res/cli.yml")).unwrap();
    let app = clap::App::from_yaml(&yaml[0]).name("huff").version("0").author("");
    if let Err(e) = huff::cli::process_args(app.get_matches()) {
        eprintln!("KIND {:?} {:?}", e.kind, e.to_string());
        std::process::exit(1);
    }
}
