use std::fmt::Display;

#[derive(Debug)]
pub struct InvalidKPatternDataError {
    pub description: String,
}

impl From<String> for InvalidKPatternDataError {
    fn from(description: String) -> Self {
        Self { description }
    }
}

impl From<&str> for InvalidKPatternDataError {
    fn from(description: &str) -> Self {
        Self {
            description: description.to_owned(),
        }
    }
}

impl Display for InvalidKPatternDataError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.description)
    }
}

#[derive(Debug)]
pub struct InvalidKTransformationDataError {
    pub description: String,
}

impl From<String> for InvalidKTransformationDataError {
    fn from(description: String) -> Self {
        Self { description }
    }
}

impl From<&str> for InvalidKTransformationDataError {
    fn from(description: &str) -> Self {
        Self {
            description: description.to_owned(),
        }
    }
}

impl Display for InvalidKTransformationDataError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.description)
    }
}
